------------------------------- MODULE HeaderMC -------------------------------
(* The library's representation - a map from lower case names to value lists -  *)
(* against the multimap: every call answers the same.                           *)
EXTENDS HeaderOps
CONSTANTS Limit, Bug
VARIABLES abs, rep
Ns == {<<97>>, <<65>>, <<98>>}
Vs == {<<120>>, <<121>>}
Key(n) == Lower(n)
Lk(n) == IF Bug = "rawlookup" THEN n ELSE Key(n)
Empty == [n \in {} |-> <<>>]
Put(m, k, vs) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN vs ELSE m[x]]
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
At0(m, k) == IF k \in DOMAIN m THEN m[k] ELSE <<>>
Init == abs = <<>> /\ rep = Empty
SetN(n, v) == abs' = Append(Without(abs, n), <<Norm(n), v>>)
              /\ rep' = (IF Bug = "setfirst" /\ At0(rep, Key(n)) # <<>> THEN Put(rep, Key(n), <<v>> \o Tail(rep[Key(n)])) ELSE Put(rep, Key(n), <<v>>))
AppendN(n, v) == abs' = Append(abs, <<Norm(n), v>>)
                 /\ rep' = (IF Bug = "prepend" THEN Put(rep, Key(n), <<v>> \o At0(rep, Key(n))) ELSE Put(rep, Key(n), Append(At0(rep, Key(n)), v)))
DelN(n) == abs' = Without(abs, n) /\ rep' = Drop(rep, IF Bug = "rawdel" THEN n ELSE Key(n))
Next == \E n \in Ns : DelN(n) \/ (Len(abs) < Limit /\ \E v \in Vs : SetN(n, v) \/ AppendN(n, v))
Spec == Init /\ [][Next]_<<abs, rep>>
Same == /\ \A n \in Ns : At0(rep, Lk(n)) = ValuesOf(abs, n)
        /\ \A n \in Ns : (Lk(n) \in DOMAIN rep) <=> (ValuesOf(abs, n) # <<>>)
        /\ Cardinality(DOMAIN rep) = Cardinality(Names(abs))
=============================================================================
