------------------------------ MODULE JsonTrace ------------------------------
EXTENDS JsonOps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l, st
Ev == Traces[t][l]
Done == Ev.r.k = "done"
(* the part at a path of positions; members of objects by name *)
RECURSIVE At2(_, _)
At2(v, path) == IF path = <<>> THEN v
                ELSE IF v.k = "a" THEN At2(v.a[Len(path[1]) + 1], Tail(path))   \* position n is a name of n bytes
                ELSE At2((CHOOSE m \in v.o : m[1] = path[1])[2], Tail(path))
Put(v, path, x) == IF v.k = "a" THEN Arr([v.a EXCEPT ![Len(path[1]) + 1] = x])
                   ELSE Obj({m \in v.o : m[1] # path[1]} \cup {<<path[1], x>>})
Ok == CASE Ev.op \in {"build", "copy", "assign", "part", "put"} -> Done
        [] Ev.op = "parse" -> Done /\ Parse(Ev.text).ok
        [] Ev.op \in {"dump", "rt"} -> Ev.r.k = "val" /\ Canon(Ev.r.val) = st[Ev.s]
        [] Ev.op = "str" -> Ev.r.k = "v" /\ LET p == Parse(Ev.r.v) IN p.ok /\ p.v = st[Ev.s]
        [] Ev.op = "held" -> Ev.r.k = "n" /\ Ev.r.after <= Ev.r.before + 4096
        [] OTHER -> FALSE
After2 == CASE Ev.op = "build" -> [st EXCEPT ![Ev.s] = Canon(Ev.val)]
            [] Ev.op = "parse" -> [st EXCEPT ![Ev.s] = Parse(Ev.text).v]
            [] Ev.op \in {"copy", "assign"} -> [st EXCEPT ![Ev.s] = st[Ev.o]]
            [] Ev.op = "part" -> [st EXCEPT ![Ev.s] = At2(st[Ev.o], Ev.path)]
            [] Ev.op = "put" -> [st EXCEPT ![Ev.s] = Put(st[Ev.s], Ev.path, st[Ev.o])]
            [] OTHER -> st
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [s \in {"p", "q", "r"} |-> Null]
Next == /\ l <= Len(Traces[t])
        /\ (IF Explain THEN PrintT("EXPECT " \o ToString(st[Ev.s])) ELSE TRUE)
        /\ Ok
        /\ st' = TLCEval(After2) /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t]) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
=============================================================================
