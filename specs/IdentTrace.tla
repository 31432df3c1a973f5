----------------------------- MODULE IdentTrace -----------------------------
(* Recorded runs of whole servers: what handlers were told and what clients got.*)
EXTENDS Ident, Calendar, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l
R == Traces[t]
(* the clock may be read late by as much as its coarse form lags *)
DateOk(r) == Len(r.date) = 1 /\ \E s \in (r.t0 - 1)..(r.t1 + 1) : r.date[1] = HttpDate(Civil(s \div 86400), s % 86400)
AllDates(c) == /\ \A i \in DOMAIN c.steps : \A j \in DOMAIN c.steps[i].resp : DateOk(c.steps[i].resp[j])
               /\ \A j \in DOMAIN c.last : DateOk(c.last[j])
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(R.conns) + 1
        /\ (IF Explain THEN PrintT("EXPECT " \o (IF l <= Len(R.conns) THEN ToString(R.conns[l]) ELSE "names of their own")) ELSE TRUE)
        /\ (IF l <= Len(R.conns) THEN ConnOk(R.conns[l]) /\ AllDates(R.conns[l]) ELSE Apart(R.conns) /\ R.alive)
        /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(R.conns) + 1 THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
=============================================================================
