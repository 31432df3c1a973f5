----------------------------- MODULE ListenConc -----------------------------
(* A listening socket with two threads that accept, one that stops it, clients  *)
(* that come, calls that fail for a while, and somebody else's socket that gets *)
(* the lowest free handle. Every client that came before the stop is handed out *)
(* once, nobody is stuck, and only this socket's clients are handed out.        *)
EXTENDS Integers, FiniteSets
CONSTANTS Bug, Clients, Troubles
VARIABLES handle, owner, down, lock, pc, h, queue, given, stray, other, sp, tr
vars == <<handle, owner, down, lock, pc, h, queue, given, stray, other, sp, tr>>
A == {"a", "b"}
Init == /\ handle = 1 /\ owner = [i \in 1..2 |-> IF i = 1 THEN "mine" ELSE "none"] /\ down = FALSE /\ lock = ""
        /\ pc = [t \in A |-> "idle"] /\ h = [t \in A |-> 0] /\ queue = {} /\ given = [c \in 1..Clients |-> 0]
        /\ stray = FALSE /\ other = FALSE /\ sp = "idle" /\ tr = 0
Went(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Came == Cardinality(queue) + Cardinality({c \in 1..Clients : given[c] > 0})
Client == /\ Came < Clients /\ ~down /\ owner[1] = "mine" /\ queue' = queue \cup {Came + 1}
          /\ UNCHANGED <<handle, owner, down, lock, pc, h, given, stray, other, sp, tr>>
Other == /\ ~other /\ other' = TRUE
         /\ LET F == {i \in 1..2 : owner[i] = "none"} IN F # {} /\ owner' = [owner EXCEPT ![CHOOSE i \in F : \A j \in F : i <= j] = "other"]
         /\ UNCHANGED <<handle, down, lock, pc, h, queue, given, stray, sp, tr>>
(* ---- accepting *)
Lock(t) == Went(t, "idle", "locked") /\ lock = "" /\ lock' = t /\ UNCHANGED <<handle, owner, down, h, queue, given, stray, other, sp, tr>>
Load(t) == pc[t] = "locked" /\ h' = [h EXCEPT ![t] = handle] /\ pc' = [pc EXCEPT ![t] = IF handle = 0 THEN "none" ELSE "call"]
           /\ UNCHANGED <<handle, owner, down, lock, queue, given, stray, other, sp, tr>>
Call(t) == /\ pc[t] = "call"
           /\ \/ \E c \in queue : /\ \A d \in queue : c <= d
                                  /\ owner[h[t]] = "mine" /\ queue' = queue \ {c} /\ given' = [given EXCEPT ![c] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "conn"] /\ UNCHANGED <<stray, tr>>
              \* a client of somebody else's socket
              \/ owner[h[t]] = "other" /\ stray' = TRUE /\ pc' = [pc EXCEPT ![t] = "conn"] /\ UNCHANGED <<queue, given, tr>>
              \/ (owner[h[t]] = "none" \/ (owner[h[t]] = "mine" /\ down)) /\ pc' = [pc EXCEPT ![t] = "failed"] /\ UNCHANGED <<queue, given, stray, tr>>
              \* a passing error; one of a client that gave up takes nobody else with it
              \/ /\ tr < Troubles /\ tr' = tr + 1 /\ pc' = [pc EXCEPT ![t] = "failed"] /\ UNCHANGED <<given, stray>>
                 /\ queue' = (IF Bug = "swallow" THEN {} ELSE queue)
           /\ UNCHANGED <<handle, owner, down, lock, h, other, sp>>
Back(t) == /\ pc[t] \in {"conn", "none", "failed"} /\ lock' = ""
           /\ pc' = [pc EXCEPT ![t] = CASE pc[t] = "conn" -> "idle" [] pc[t] = "none" -> "out"
                                        [] OTHER -> IF Bug = "giveup" THEN "thrown" ELSE "idle"]
           /\ UNCHANGED <<handle, owner, down, h, queue, given, stray, other, sp, tr>>
(* ---- stopping *)
Take == sp = "idle" /\ sp' = "taken" /\ handle' = 0 /\ UNCHANGED <<owner, down, lock, pc, h, queue, given, stray, other, tr>>
Shut == sp = "taken" /\ sp' = "shut" /\ down' = (Bug # "noshutdown") /\ queue' = (IF down' THEN {} ELSE queue)
        /\ UNCHANGED <<handle, owner, lock, pc, h, given, stray, other, tr>>
Close == /\ sp = "shut" /\ (Bug = "rawclose" \/ lock = "") /\ sp' = "out" /\ owner' = [owner EXCEPT ![1] = "none"] /\ queue' = {}
         /\ UNCHANGED <<handle, down, lock, pc, h, given, stray, other, tr>>
Next == Client \/ Other \/ (\E t \in A : Lock(t) \/ Load(t) \/ Call(t) \/ Back(t)) \/ Take \/ Shut \/ Close
Spec == /\ Init /\ [][Next]_vars /\ \A t \in A : SF_vars(Lock(t)) /\ WF_vars(Load(t)) /\ WF_vars(Call(t)) /\ WF_vars(Back(t))
        /\ WF_vars(Shut) /\ SF_vars(Close)
OnlyMine == ~stray
Once == \A c \in 1..Clients : given[c] <= 1
(* no error other than the stop ends an accept *)
NoThrow == \A t \in A : pc[t] # "thrown"
Handed == \A c \in 1..Clients : c \in queue ~> given[c] = 1 \/ sp # "idle"
Released == sp = "taken" ~> sp = "out" /\ \A t \in A : pc[t] = "out"
=============================================================================
