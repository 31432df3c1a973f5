------------------------------ MODULE KVTrace ------------------------------
(* Conformance of recorded sessions with KVOps: sequential sessions (K01),  *)
(* crashes (K02), write failures (K05).                                     *)
(* A trace is a sequence of events:                                         *)
(*   op       [o, res]  a call returned                                     *)
(*   reopen             closed and opened again                             *)
(*   failed   [o]       a call threw because the disk refused its data      *)
(*   crash    [o]       killed while o was running (op "none": no call)     *)
(*   contents [m]       what the storage holds now: list of [k, v]          *)
EXTENDS KVOps, Json, IOUtils, Integers
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l, mem, alt, late  \* alt: the maps that the file may hold after refused writes; late: the refused operations
vars == <<t, l, mem, alt, late>>

Ev == Traces[t].ev[l]
AsMap(list) == [k \in {list[i].k : i \in 1..Len(list)} |-> list[CHOOSE i \in 1..Len(list) : list[i].k = k].v]
Step == /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t].ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)

Init == t \in 1..Len(Traces) /\ l = 1 /\ mem = EmptyMap /\ alt = {} /\ late = {}
IsEv(e) == l <= Len(Traces[t].ev) /\ Ev.e = e

(* the data of a refused call may still reach the file later, or never *)
Late(S) == S \cup {OpMem(m, o) : m \in S, o \in late}

Expect(x) == IF Explain THEN PrintT("EXPECT " \o ToString(x)) ELSE TRUE
Op == IsEv("op") /\ Expect(OpRes(mem, Ev.o)) /\ Ev.res = OpRes(mem, Ev.o) /\ mem' = OpMem(mem, Ev.o) /\ alt' = Late({OpMem(a, Ev.o) : a \in alt}) /\ UNCHANGED late /\ Step
(* a call whose result was not looked at *)
Did == IsEv("did") /\ mem' = OpMem(mem, Ev.o) /\ alt' = Late({OpMem(a, Ev.o) : a \in alt}) /\ UNCHANGED late /\ Step
Reopen == IsEv("reopen") /\ UNCHANGED <<mem, alt, late>> /\ Step
Failed == /\ IsEv("failed") /\ Mutates(Ev.o) /\ OpRec(mem, Ev.o) # <<>> /\ UNCHANGED mem
          /\ alt' = (IF alt = {} THEN {mem} ELSE alt) \cup {OpMem(m, Ev.o) : m \in (IF alt = {} THEN {mem} ELSE alt)}
          /\ late' = late \cup {Ev.o}
          /\ Step
(* the effect of the running call survives or not; every earlier one does *)
CrashLost == IsEv("crash") /\ UNCHANGED <<mem, alt, late>> /\ Step
CrashKept == IsEv("crash") /\ OpMem(mem, Ev.o) # mem /\ mem' = OpMem(mem, Ev.o) /\ UNCHANGED <<alt, late>> /\ Step
Contents == IsEv("contents") /\ Expect(mem) /\ AsMap(Ev.m) = mem /\ UNCHANGED <<mem, alt, late>> /\ Step
(* after refused writes and a reopen: every acknowledged operation, and any of the refused ones or none *)
ContentsAny == IsEv("contentsany") /\ (AsMap(Ev.m) = mem \/ AsMap(Ev.m) \in alt) /\ mem' = AsMap(Ev.m) /\ alt' = {} /\ late' = {} /\ Step
Next == Op \/ Did \/ Reopen \/ Failed \/ CrashLost \/ CrashKept \/ Contents \/ ContentsAny
=============================================================================
