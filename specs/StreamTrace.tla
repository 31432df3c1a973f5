----------------------------- MODULE StreamTrace -----------------------------
EXTENDS StreamLife, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l, st
Ev == Traces[t][l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [c |-> [s \in {"p", "q"} |-> NoC], d |-> [s \in {"p", "q"} |-> NoD]]
Next == /\ l <= Len(Traces[t])
        /\ (IF Explain THEN PrintT("EXPECT " \o ToString(<<st.c[Ev.s], st.d[Ev.s]>>)) ELSE TRUE)
        /\ Ok(st, Ev)
        /\ st' = TLCEval(Do(st, Ev)) /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t]) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
=============================================================================
