------------------------------ MODULE CookieGen ------------------------------
EXTENDS CookieOps
CONSTANT Limit
VARIABLES st, last
Names == {<<97>>, <<65>>, <<98>>}
Slots == {"p", "q"}
O(op, s, o, n, v, a) == [op |-> op, s |-> s, o |-> o, n |-> n, v |-> v, a |-> a]
Ops == {O("set", s, "p", n, v, a) : s \in Slots, n \in Names, v \in {<<120>>}, a \in {0, 2}}
       \cup {O(op, s, "p", n, <<>>, 0) : op \in {"del", "get", "has"}, s \in Slots, n \in Names}
       \cup {O(op, s, "p", <<>>, <<>>, 0) : op \in {"entries", "size", "ser", "resp"}, s \in Slots}
       \cup {O(op, "p", "q", <<>>, <<>>, 0) : op \in {"copy", "move", "assign", "massign"}}
       \cup {O(op, "q", "p", <<>>, v, 0) : op \in {"new", "req"}, v \in {<<65, 61, 121>>, <<98, 61, 121, 59, 97, 61, 120>>}}
       \cup {O("empty", "q", "p", <<>>, <<>>, 0)}
Init == st = [s \in Slots |-> Fresh] /\ last = O("none", "p", "p", <<>>, <<>>, 0)
Next == \E o \in Ops : st' = Step1(st, o) /\ last' = o
Small == Cardinality(st["p"].jar) + Cardinality(st["p"].told) + Cardinality(st["q"].jar) + Cardinality(st["q"].told) <= Limit
=============================================================================
