------------------------------ MODULE KVLin ------------------------------
(* Linearizability of concurrent histories of one storage (K04): a recorded *)
(* history of calls and returns is accepted when there are linearization    *)
(* points, each between its call and its return, at which the sequential    *)
(* meaning (KVOps) gives the recorded results; what the storage holds at    *)
(* the end and what a reopened storage holds is the state of that order.    *)
(* Events: call [th, o], ret [th, res], contents [m], reopen.  A data race  *)
(* reported by the instrumentation is an event no action accepts.           *)
EXTENDS KVOps, Json, IOUtils, Integers
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
Idle == [st |-> "idle"]
VARIABLES t, l, mem, pend
vars == <<t, l, mem, pend>>
Ev == Traces[t].ev[l]
Threads == 0..7
AsMap(list) == [k \in {list[i].k : i \in 1..Len(list)} |-> list[CHOOSE i \in 1..Len(list) : list[i].k = k].v]
Step == /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t].ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
Init == t \in 1..Len(Traces) /\ l = 1 /\ mem = EmptyMap /\ pend = [th \in Threads |-> Idle]
IsEv(e) == l <= Len(Traces[t].ev) /\ Ev.e = e
Call == /\ IsEv("call") /\ pend[Ev.th].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.th] = [st |-> "called", o |-> Ev.o]]
        /\ UNCHANGED mem /\ Step
Lin(th) == /\ pend[th].st = "called" /\ l <= Len(Traces[t].ev)
           /\ pend' = [pend EXCEPT ![th] = [st |-> "done", res |-> OpRes(mem, pend[th].o)]]
           /\ mem' = OpMem(mem, pend[th].o)
           /\ UNCHANGED <<t, l>>
Ret == /\ IsEv("ret") /\ pend[Ev.th].st = "done" /\ pend[Ev.th].res = Ev.res
       /\ pend' = [pend EXCEPT ![Ev.th] = Idle] /\ UNCHANGED mem /\ Step
Contents == IsEv("contents") /\ AsMap(Ev.m) = mem /\ UNCHANGED <<mem, pend>> /\ Step
Reopen == IsEv("reopen") /\ UNCHANGED <<mem, pend>> /\ Step
Next == Call \/ (\E th \in Threads : Lin(th)) \/ Ret \/ Contents \/ Reopen
=============================================================================
