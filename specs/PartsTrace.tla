------------------------------ MODULE PartsTrace ------------------------------
(* Recorded sessions: dates, identifiers and the order of bytes.                *)
(* st: what is known of the identifiers of a session; seen: their texts.        *)
EXTENDS Calendar, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l, st, seen
Ev == Traces[t][l]
Slots == {"p", "q", "r"}
HexSmall == (48..57) \cup (97..102)
Txt(s) == Len(s) = 8 /\ \A i \in 1..8 : s[i] \in HexSmall
(* an identifier has one text, and no two have the same *)
Fits(S, id, s) == Txt(s) /\ \A p \in S : (p[1] = id) = (p[2] = s)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
DateOk(e) == LET c == Civil(e.day) IN
    /\ e.gday = e.day /\ e.gsec = e.sec
    /\ e.y = c.y - 1900 /\ e.mo = c.m - 1 /\ e.d = c.d /\ e.h = e.sec \div 3600 /\ e.mi = (e.sec \div 60) % 60 /\ e.s = e.sec % 60
    /\ e.utc = HttpDate(c, e.sec) /\ e.hrt = PlainDate(c, e.sec) /\ e.dt = WithDay(c)
Ok(e) ==
    CASE e.op \in {"date", "now"} -> e.r = "d" /\ DateOk(e)
      [] e.op \in {"id", "iupd", "icopy", "imove", "iset"} -> e.r = "done"
      [] e.op = "ishow" -> e.r = "i" /\ Fits(seen, e.id, e.text) /\ (st[e.p].id # <<>> => e.id = st[e.p].id)
      [] e.op = "ifresh" -> /\ e.r = "f" /\ Len(e.ids) = e.n
                            /\ \A i \in 1..e.n : Txt(e.ids[i][2]) /\ e.ids[i][1] # <<0, 0, 0, 0>>
                            /\ Cardinality({e.ids[i][1] : i \in 1..e.n}) = e.n /\ Cardinality({e.ids[i][2] : i \in 1..e.n}) = e.n
      [] e.op = "net" -> e.r = "v" /\ e.v = Rev(e.in)       \* what was in the machine's order (little endian here)
      [] e.op = "store" -> e.r = "v" /\ e.v = e.in
      [] OTHER -> FALSE
(* id <<>>: made up by the library, to be learned *)
Do(e) == CASE e.op \in {"id", "iupd"} -> [st EXCEPT ![e.p] = [id |-> e.id]]
           [] e.op = "ishow" -> [st EXCEPT ![e.p] = [id |-> e.id]]
           [] e.op \in {"icopy", "imove", "iset"} -> [st EXCEPT ![e.p] = st[e.o]]
           [] OTHER -> st
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [s \in Slots |-> [id |-> <<>>]] /\ seen = {}
Next == /\ l <= Len(Traces[t])
        /\ (IF Explain THEN PrintT("EXPECT " \o ToString(st)) ELSE TRUE)
        /\ Ok(Ev)
        /\ st' = TLCEval(Do(Ev)) /\ seen' = (IF Ev.op = "ishow" THEN seen \cup {<<Ev.id, Ev.text>>} ELSE seen) /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t]) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
=============================================================================
