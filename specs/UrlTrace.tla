------------------------------ MODULE UrlTrace ------------------------------
EXTENDS UrlOps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l
Tr == Traces[t]
Fields == <<"protocol", "username", "password", "host", "hostname", "port", "pathname", "hash">>
NoHash(x) == IF x = <<35>> THEN None ELSE x
Unbracket(x) == IF x # None /\ x[1] = 91 THEN Sub(x, 2, Len(x) - 1) ELSE x
Host(u) == IF u.port = None THEN u.hostname ELSE u.hostname \o <<58>> \o u.port
FieldsOk(u, f, vals) ==
    /\ f[1] = u.protocol /\ f[2] = u.username /\ f[3] = u.password /\ f[4] = Host(u)
    /\ f[5] \in {u.hostname, Unbracket(u.hostname)} /\ f[6] = u.port /\ f[7] = u.pathname /\ NoHash(f[8]) = NoHash(u.hash)
    /\ \A i \in DOMAIN Tr.names : vals[i] = Param(u.query, Tr.names[i])
UrlOk(o) == LET u == Parse(Tr.s) IN
    CASE u.k = "any" -> o.k \in {"u", "throw"}
      [] u.k = "throw" -> o.k = "throw"
      [] u.k = "maybe" /\ o.k = "throw" -> TRUE
      [] OTHER -> /\ o.k = "u" /\ FieldsOk(u, o.f, o.vals)
                  /\ IF u.hostname = None THEN o.href.k \in {"nohref", "v"}
                     ELSE o.href.k = "v" /\ o.again.k = "u" /\ FieldsOk(u, o.again.f, o.again.vals)
UspOk(o) == LET k == Index(Tr.s, 63) q == From(Tr.s, k + 1) IN
            /\ o.k = "l" /\ Len(o.vals) = 2 * Len(Tr.names)
            /\ \A i \in DOMAIN Tr.names : o.vals[i] = Param(q, Tr.names[i]) /\ o.vals[Len(Tr.names) + i] = Param(q, Tr.names[i])
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l = 1
        /\ (IF Explain THEN PrintT("EXPECT " \o ToString(Parse(Tr.s))) ELSE TRUE)
        /\ (IF Tr.op = "usp" THEN UspOk(Tr.out) ELSE UrlOk(Tr.out))
        /\ l' = 2 /\ t' = t
        /\ PrintT("ACC " \o ToString(t))
=============================================================================
