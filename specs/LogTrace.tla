------------------------------ MODULE LogTrace ------------------------------
(* Recorded runs of whole servers: what their clients and handlers saw, and the *)
(* lines of both logs (out, err) taken apart. One step per connection, one more *)
(* for what is left.                                                            *)
EXTENDS Logs, Json, IOUtils, TLC, FiniteSets, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l
R == Traces[t]
(* a path with control characters is shown in some other way *)
SameLine(a, b, c) ==
    /\ a.k = b.k
    /\ CASE a.k = "req" -> /\ a.rid = b.rid /\ a.addr = b.addr /\ a.m = b.m /\ a.res = b.res
                           /\ (a.p = b.p \/ \E j \in DOMAIN c.steps : c.steps[j].rid = b.rid /\ c.steps[j].dirty)
         [] a.k \in {"crash", "aborted"} -> a.rid = b.rid /\ a.addr = b.addr
         [] a.k = "created" -> a.cid = b.cid /\ a.host = b.host /\ a.port = b.port
         [] a.k \in {"closed", "terminated"} -> a.cid = b.cid /\ a.host = b.host
         [] a.k = "app" -> a.tag = b.tag /\ a.n = b.n
         [] OTHER -> FALSE
SameLines(a, b, c) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameLine(a[i], b[i], c)
Rids(c) == {c.steps[j].rid : j \in DOMAIN c.steps}
Tags(c) == {c.steps[j].tag : j \in DOMAIN c.steps}
Mine(c, ln) == CASE ln.k = "created" -> ln.host = c.host /\ ln.port = c.port
                 [] ln.k \in {"closed", "terminated"} -> ln.cid = c.cid
                 [] ln.k \in {"req", "crash", "aborted"} -> ln.rid \in Rids(c)
                 [] ln.k = "app" -> ln.tag \in Tags(c)
                 [] OTHER -> FALSE
Of(s, c) == SelectSeq(s, LAMBDA ln : Mine(c, ln))
App(s) == IF s.n = 0 THEN <<>> ELSE <<[k |-> "app", tag |-> s.tag, n |-> s.n]>>
(* the lists of lines of a connection go on with one of the lists of each step *)
RECURSIVE Goes(_, _, _, _, _, _)
Goes(f, c, o, ss, have, ends) ==
    IF ss = <<>> THEN \E e \in ends : SameLines(e, have, c)
    ELSE LET a == App(Head(ss)) IN
         \E x \in (IF f = "out" THEN StepOut(c, o, Head(ss)) ELSE StepErr(c, o, Head(ss))) :
            LET y == a \o x IN
            /\ Len(y) <= Len(have) /\ SameLines(y, SubSeq(have, 1, Len(y)), c)
            /\ Goes(f, c, o, Tail(ss), SubSeq(have, Len(y) + 1, Len(have)), ends)
ConnOk(c0) ==
    LET made == SelectSeq(R.out, LAMBDA ln : ln.k = "created" /\ ln.host = c0.host /\ ln.port = c0.port)
        c == IF c0.cid = "" /\ made # <<>> THEN [c0 EXCEPT !.cid = made[1].cid] ELSE c0
        o == R.o
        begin == BeginOut(c, o)
        ho == Of(R.out, c)
        he == Of(R.err, c)
        closed == EndOut(c, o)
        broken == EndErr(c, o)
        hasErr == \E i \in DOMAIN he : he[i].k = "terminated"
        \* a client that asked nothing can have been too late for the server
        unheard == c.steps = <<>> /\ ~c.heard /\ made = <<>>
    IN IF unheard THEN ho = <<>> /\ (c.cid # "" => he = <<>>) ELSE
       /\ Len(ho) >= Len(begin) /\ SameLines(begin, SubSeq(ho, 1, Len(begin)), c)
       /\ Goes("out", c, o, c.steps, SubSeq(ho, Len(begin) + 1, Len(ho)),
               CASE c.fin = "closed" -> {closed} [] c.fin = "error" -> {<<>>} [] OTHER -> (IF hasErr THEN {<<>>} ELSE {closed}))
       \* without a name there is no telling whose line it is
       /\ (c.cid # "" => Goes("err", c, o, c.steps, he,
               CASE c.fin = "closed" -> {<<>>} [] c.fin = "error" -> {broken} [] OTHER -> {<<>>, broken}))
Count(s, k) == Cardinality({i \in DOMAIN s : s[i].k = k})
Cids(k, s) == {s[i].cid : i \in {j \in DOMAIN s : s[j].k = k}}
RestOk ==
    LET o == R.o
        known == {R.conns[i].cid : i \in DOMAIN R.conns} \ {""}
        nameless == {i \in DOMAIN R.conns : R.conns[i].cid = ""}
        all == {i \in DOMAIN R.err : R.err[i].k = "terminated"}
        others == {i \in all : R.err[i].cid \notin known}
        rids == UNION {Rids(R.conns[i]) : i \in DOMAIN R.conns}
        tags == UNION {Tags(R.conns[i]) : i \in DOMAIN R.conns}
        must == Cardinality({i \in nameless : R.conns[i].fin = "error" /\ R.conns[i].heard})
        may == Cardinality({i \in nameless : R.conns[i].fin = "any"})
    IN /\ R.alive                                  \* the server ran to its end
       /\ Count(R.out, "started") = (IF o.s THEN 1 ELSE 0) /\ \A i \in DOMAIN R.out : R.out[i].k = "started" => R.out[i].port = R.port
       /\ Count(R.out, "stopping") <= (IF R.stop THEN 1 ELSE 0)
       \* nothing else was written
       /\ \A i \in DOMAIN R.out : R.out[i].k \in {"started", "stopping", "created", "closed", "req", "app"}
       /\ \A i \in DOMAIN R.err : R.err[i].k \in {"terminated", "crash", "aborted", "app"}
       /\ \A i \in DOMAIN R.out : (R.out[i].k = "req" => R.out[i].rid \in rids) /\ (R.out[i].k = "app" => R.out[i].tag \in tags)
       /\ \A i \in DOMAIN R.err : (R.err[i].k \in {"crash", "aborted"} => R.err[i].rid \in rids) /\ (R.err[i].k = "app" => R.err[i].tag \in tags)
       /\ Count(R.out, "created") <= (IF o.t THEN Len(R.conns) ELSE 0)   \* each was looked for above
       /\ (~o.t => Count(R.out, "closed") = 0)
       /\ Cardinality(Cids("created", R.out)) = Count(R.out, "created")
       /\ \A x \in Cids("closed", R.out) : x \in Cids("created", R.out)
       /\ (o.t => \A x \in Cids("terminated", R.err) : x \in Cids("created", R.out))
       /\ Cardinality({R.err[i].cid : i \in others}) = Cardinality(others)
       /\ IF ~o.r /\ ~o.t THEN others = {} ELSE Cardinality(others) >= must /\ Cardinality(others) <= must + may
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(R.conns) + 1
        /\ (IF Explain THEN PrintT("EXPECT " \o (IF l <= Len(R.conns) THEN ToString(R.conns[l]) ELSE "nothing else")) ELSE TRUE)
        /\ (IF l <= Len(R.conns) THEN ConnOk(R.conns[l]) ELSE RestOk)
        /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(R.conns) + 1 THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
=============================================================================
