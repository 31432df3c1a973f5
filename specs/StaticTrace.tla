----------------------------- MODULE StaticTrace -----------------------------
(* One trace: a tree and requests with what was answered.                     *)
EXTENDS StaticOps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
PROP == IOEnv.PROP
VARIABLES t, l
T == Traces[t]
Init == t \in 1..Len(Traces) /\ l = 1
(* the type of an extension: [ext -> type] as a sequence; files with unusual names (type "?") are not judged *)
Base(ct) == Trim(Lower(UpTo(ct, 59)))
Served(q, i) == q.code = 200 /\ q.body = T.tree[i].body /\ (T.tree[i].type = <<63>> \/ Base(q.ctype) = T.tree[i].type)
Right(q) == LET A == Allowed(T.tree, q.path) IN
    \/ 0 \in A /\ q.code = 404
    \/ \E i \in A \ {0} : IF T.tree[i].locked THEN q.code = 404 ELSE Served(q, i)
Contained(q) == \/ q.code = 404
                \/ q.code = 200 /\ \E i \in DOMAIN T.tree : T.tree[i].kind = "file" /\ ~T.tree[i].locked /\ T.tree[i].body = q.body
Next == /\ l <= Len(T.req)
        /\ (IF Explain THEN PrintT("EXPECT " \o ToString(Allowed(T.tree, T.req[l].path))) ELSE TRUE)
        /\ (IF PROP = "S01" THEN Contained(T.req[l]) ELSE Right(T.req[l]))
        /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(T.req) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
=============================================================================
