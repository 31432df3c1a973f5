------------------------------ MODULE HeaderGen ------------------------------
(* The state graph of two small collections, with the last call as a label.    *)
EXTENDS HeaderOps
CONSTANT Limit
VARIABLES st, last
N1 == {<<97>>, <<65>>, <<98>>}
V1 == {<<120>>, <<121>>}
Slots == {"p", "q"}
O(op, s, o, n, v, init) == [op |-> op, s |-> s, o |-> o, n |-> n, v |-> v, init |-> init]
Ops == {O(op, s, "p", n, v, <<>>) : op \in {"set", "append"}, s \in Slots, n \in N1, v \in V1}
       \cup {O(op, s, "p", n, <<>>, <<>>) : op \in {"del", "get", "has", "all"}, s \in Slots, n \in N1}
       \cup {O(op, s, "p", <<>>, <<>>, <<>>) : op \in {"entries", "size"}, s \in Slots}
       \cup {O(op, "p", "q", <<>>, <<>>, <<>>) : op \in {"copy", "move", "assign", "massign"}}
       \cup {O("new", "q", "p", <<>>, <<>>, i) : i \in {<<>>, <<<<<<32, 65>>, <<120, 9>>>>, <<<<97>>, <<121>>>>>>}}
Init == st = [s \in Slots |-> <<>>] /\ last = O("none", "p", "p", <<>>, <<>>, <<>>)
Next == \E o \in Ops : st' = Step1(st, o) /\ last' = o
Small == Len(st["p"]) <= Limit /\ Len(st["q"]) <= 1
=============================================================================
