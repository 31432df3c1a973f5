------------------------------ MODULE HeaderOps ------------------------------
(* A header collection as a multimap: the sequence of <<name, value>> pairs in *)
(* the order they were added, names in lower case.  st maps slots to these.    *)
EXTENDS Text
Norm(n) == Lower(n)
ValuesOf(h, n) == LET P == SelectSeq(h, LAMBDA x : x[1] = Norm(n)) IN [i \in DOMAIN P |-> P[i][2]]
Names(h) == {h[i][1] : i \in DOMAIN h}
Without(h, n) == SelectSeq(h, LAMBDA x : x[1] # Norm(n))
Build(init) == [i \in DOMAIN init |-> <<Norm(Trim(init[i][1])), Trim(init[i][2])>>]
Mutators == {"new", "copy", "move", "assign", "massign", "set", "append", "del"}
(* o: [op, s, o (other slot), n, v, init] *)
Step1(st, o) ==
    CASE o.op = "new" -> [st EXCEPT ![o.s] = Build(o.init)]
      [] o.op \in {"copy", "assign"} -> [st EXCEPT ![o.s] = st[o.o]]
      [] o.op \in {"move", "massign"} -> [[st EXCEPT ![o.o] = <<>>] EXCEPT ![o.s] = st[o.o]]
      [] o.op = "set" -> [st EXCEPT ![o.s] = Append(Without(@, o.n), <<Norm(o.n), o.v>>)]
      [] o.op = "append" -> [st EXCEPT ![o.s] = Append(@, <<Norm(o.n), o.v>>)]
      [] o.op = "del" -> [st EXCEPT ![o.s] = Without(@, o.n)]
      [] OTHER -> st
(* results: [k |-> "done" | "v" | "b" | "l" | "e" | "n", ...] *)
ResOk(st, o, r) ==
    LET h == st[o.s] IN
    CASE o.op \in Mutators -> r.k = "done"
      [] o.op = "get" -> r.k = "v" /\ r.v = (LET vs == ValuesOf(h, o.n) IN IF vs = <<>> THEN <<>> ELSE vs[1])
      [] o.op = "has" -> r.k = (IF ValuesOf(h, o.n) # <<>> THEN "true" ELSE "false")
      [] o.op = "all" -> r.k = "l" /\ r.l = ValuesOf(h, o.n)
      [] o.op = "entries" -> /\ r.k = "l" /\ Len(r.l) = 2 * Len(h)
                             /\ LET E == [i \in 1..Len(h) |-> <<Norm(r.l[2 * i - 1]), r.l[2 * i]>>] IN
                                \A n \in Names(h) \cup {E[i][1] : i \in DOMAIN E} : ValuesOf(E, n) = ValuesOf(h, n)
      [] o.op = "size" -> r.k = "n" /\ r.n = Cardinality(Names(h))
      [] OTHER -> FALSE
=============================================================================
