------------------------------- MODULE KVOps -------------------------------
(* Sequential meaning of the key-value storage and of its on-disk log.      *)
(* A map is a TLA+ function whose domain is the set of present keys.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

MaxKeyLen == 65535            \* the file format stores the key size in 16 bits

EmptyMap == [k \in {} |-> ""]

Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k)    == [x \in DOMAIN m \ {k} |-> m[x]]

(* An operation is a record [op, k, v, klen]. *)
Refused(o)   == o.op = "set" /\ o.klen > MaxKeyLen
Mutates(o)   == o.op \in {"set", "remove", "clear"}

OpMem(m, o) ==
    IF Refused(o) THEN m
    ELSE CASE o.op = "set"    -> Put(m, o.k, o.v)
           [] o.op = "remove" -> Del(m, o.k)
           [] o.op = "clear"  -> EmptyMap
           [] OTHER           -> m

(* results are strings, as the driver prints them *)
OpRes(m, o) ==
    IF Refused(o) THEN "refused"
    ELSE CASE o.op = "get"  -> IF o.k \in DOMAIN m THEN m[o.k] ELSE ""
           [] o.op = "has"  -> IF o.k \in DOMAIN m THEN "true" ELSE "false"
           [] o.op = "size" -> ToString(Cardinality(DOMAIN m))
           [] OTHER         -> "done"

(* The log: a sequence of records [type, k, v].  Replaying it gives the map. *)
ApplyRec(m, r) ==
    CASE r.type = "put"    -> Put(m, r.k, r.v)
      [] r.type = "remove" -> Del(m, r.k)
      [] r.type = "clear"  -> EmptyMap

RECURSIVE ReplayFrom(_, _)
ReplayFrom(m, log) == IF log = <<>> THEN m ELSE ReplayFrom(ApplyRec(m, Head(log)), Tail(log))
Replay(log) == ReplayFrom(EmptyMap, log)

(* the record an operation appends; <<>> when it appends nothing *)
OpRec(m, o) ==
    IF Refused(o) THEN <<>>
    ELSE CASE o.op = "set"    -> <<[type |-> "put", k |-> o.k, v |-> o.v]>>
           [] o.op = "remove" -> IF o.k \in DOMAIN m THEN <<[type |-> "remove", k |-> o.k, v |-> ""]>> ELSE <<>>
           [] o.op = "clear"  -> <<[type |-> "clear", k |-> "", v |-> ""]>>
           [] OTHER           -> <<>>
=============================================================================
