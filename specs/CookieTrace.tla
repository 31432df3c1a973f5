----------------------------- MODULE CookieTrace -----------------------------
EXTENDS CookieOps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l, st
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [s \in {"p", "q", "r"} |-> Fresh]
Next == /\ l <= Len(Traces[t].ev)
        /\ (IF Explain THEN PrintT("EXPECT " \o ToString(st[Ev.o.s])) ELSE TRUE)
        /\ ResOk(st, Ev.o, Ev.r, Traces[t].now)
        /\ st' = TLCEval(Step1(st, Ev.o)) /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t].ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
=============================================================================
