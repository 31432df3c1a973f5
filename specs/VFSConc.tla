------------------------------ MODULE VFSConc ------------------------------
(* Threads working on one virtual filesystem, step by step, under its lock.     *)
(* abs: the filesystem as a map that changes in one step, when a call has its   *)
(* effect. Results must be those of some moment of the call, a snapshot must be *)
(* a state the filesystem was in, and the counter must agree in the end.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, Calls, Names, Bug
VARIABLES data, count, abs, lock, th
vars == <<data, count, abs, lock, th>>
W == 1..N
None == 0
Vals == {1, 2}
Empty == [x \in Names |-> None]
Ops == {[op |-> "write", p |-> p, q |-> p, v |-> v] : p \in Names, v \in Vals} \cup {[op |-> o, p |-> p, q |-> p, v |-> 0] : o \in {"remove", "read"}, p \in Names}
       \cup {[op |-> "move", p |-> p, q |-> q, v |-> 0] : p \in Names, q \in Names} \cup {[op |-> "save", p |-> CHOOSE p \in Names : TRUE, q |-> CHOOSE p \in Names : TRUE, v |-> 0]}
Idle(k) == [pc |-> "idle", left |-> k, o |-> [op |-> "none"], loc |-> None, todo |-> {}, out |-> Empty, seen |-> {}, abs |-> 0]
Init == data = Empty /\ count = 0 /\ abs = Empty /\ lock = 0 /\ th = [i \in W |-> Idle(Calls)]
(* everybody in a call sees the state that has come about *)
See(f, a) == [i \in W |-> IF f[i].pc = "idle" THEN f[i] ELSE [f[i] EXCEPT !.seen = @ \cup {a}]]
Call(i) == /\ th[i].pc = "idle" /\ th[i].left > 0
           /\ \E o \in Ops : th' = [th EXCEPT ![i] = [Idle(@.left - 1) EXCEPT !.pc = "called", !.o = o, !.seen = {abs}, !.todo = Names]]
           /\ UNCHANGED <<data, count, abs, lock>>
Free(i) == Bug = "nolock" \/ lock = 0
Hold(i) == IF Bug = "nolock" THEN 0 ELSE i
(* the first look *)
Look(i) == LET x == th[i] IN
    /\ x.pc = "called" /\ Free(i) /\ lock' = Hold(i)
    /\ th' = [th EXCEPT ![i] = [@ EXCEPT !.loc = data[x.o.p], !.pc = IF x.o.op = "save" THEN "saving" ELSE "looked"]]
    /\ UNCHANGED <<data, count, abs>>
Finish(f, i, out) == [f EXCEPT ![i] = [@ EXCEPT !.pc = "done", !.out = out]]
Act(i) == LET x == th[i] o == x.o IN
    /\ x.pc = "looked" /\ lock \in {Hold(i), 0}
    /\ CASE o.op = "write" -> /\ data' = [data EXCEPT ![o.p] = o.v] /\ count' = (IF x.loc = None THEN count + 1 ELSE count)
                              /\ abs' = [abs EXCEPT ![o.p] = o.v] /\ lock' = 0 /\ th' = See(Finish(th, i, Empty), abs')
         [] o.op = "remove" -> /\ data' = [data EXCEPT ![o.p] = None] /\ count' = (IF x.loc # None THEN count - 1 ELSE count)
                               /\ abs' = [abs EXCEPT ![o.p] = None] /\ lock' = 0 /\ th' = See(Finish(th, i, Empty), abs')
         [] o.op = "read" -> /\ lock' = 0 /\ th' = Finish(th, i, [Empty EXCEPT ![o.p] = x.loc]) /\ UNCHANGED <<data, count, abs>>
         [] o.op = "move" -> IF x.loc = None \/ o.p = o.q THEN lock' = 0 /\ th' = Finish(th, i, Empty) /\ UNCHANGED <<data, count, abs>>
                             ELSE /\ data' = [data EXCEPT ![o.q] = x.loc] /\ count' = (IF data[o.q] # None THEN count - 1 ELSE count)
                                  /\ lock' = (IF Bug = "movesplit" THEN 0 ELSE Hold(i))
                                  /\ th' = [th EXCEPT ![i].pc = "moving"] /\ abs' = abs
Erase(i) == LET x == th[i] o == x.o IN
    /\ x.pc = "moving" /\ (Bug = "movesplit" => lock = 0)
    /\ data' = [data EXCEPT ![o.p] = None] /\ abs' = [abs EXCEPT ![o.q] = x.loc, ![o.p] = None] /\ lock' = 0
    /\ th' = See(Finish(th, i, Empty), abs') /\ count' = count
Save(i) == LET x == th[i] IN
    /\ x.pc = "saving" /\ lock \in {Hold(i), 0}
    /\ \E n \in x.todo : LET y == [x EXCEPT !.todo = @ \ {n}, !.out[n] = data[n]] IN
         th' = [th EXCEPT ![i] = IF y.todo = {} THEN [y EXCEPT !.pc = "done"] ELSE y] /\ lock' = (IF y.todo = {} \/ Bug = "savesplit" THEN 0 ELSE Hold(i))
    /\ UNCHANGED <<data, count, abs>>
Return(i) == th[i].pc = "done" /\ th' = [th EXCEPT ![i] = Idle(@.left)] /\ UNCHANGED <<data, count, abs, lock>>
Next == \E i \in W : Call(i) \/ Look(i) \/ Act(i) \/ Erase(i) \/ Save(i) \/ Return(i)
Spec == Init /\ [][Next]_vars
Explained == \A i \in W : th[i].pc = "done" =>
    CASE th[i].o.op = "read" -> \E a \in th[i].seen : th[i].out[th[i].o.p] = a[th[i].o.p]
      [] th[i].o.op = "save" -> th[i].out \in th[i].seen
      [] OTHER -> TRUE
Quiet == (\A i \in W : th[i].pc \in {"idle", "called", "done"}) => data = abs /\ count = Cardinality({x \in Names : data[x] # None})
=============================================================================
