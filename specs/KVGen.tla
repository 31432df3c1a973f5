------------------------------- MODULE KVGen -------------------------------
(* Generator of sequential sessions: the state graph of the map with the    *)
(* last operation as a label; every edge becomes part of a replayed session *)
EXTENDS KVOps
CONSTANTS Keys, Vals
VARIABLES mem, last
Ops == [op : {"set"}, k : Keys, v : Vals, klen : {1}]
       \cup [op : {"set"}, k : Keys, v : {"x"}, klen : {MaxKeyLen, MaxKeyLen + 1}]
       \cup [op : {"get", "has", "remove"}, k : Keys, v : {""}, klen : {1}]
       \cup [op : {"clear", "size", "reopen"}, k : {""}, v : {""}, klen : {0}]
Init == mem = EmptyMap /\ last = [op |-> "none", k |-> "", v |-> "", klen |-> 0]
Key(o) == IF o.klen > 1 THEN o.k \o ToString(o.klen) ELSE o.k
Norm(o) == [o EXCEPT !.k = Key(o)]
Next == \E o \in Ops : mem' = OpMem(mem, Norm(o)) /\ last' = o
Small == Cardinality(DOMAIN mem) <= 2
=============================================================================
