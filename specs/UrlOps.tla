------------------------------- MODULE UrlOps -------------------------------
(* The parts of an URL, by position of its delimiters:                         *)
(*   protocol://[user[:password]@]host[:port][/path][?query][#fragment]        *)
(* or an absolute path.  Verdicts: "url" (these parts), "throw" (has to be      *)
(* refused), "maybe" (these parts, or refused), "any" (not settled).            *)
EXTENDS Text
None == <<>>
NoUrl(k) == [k |-> k, protocol |-> None, username |-> None, password |-> None, hostname |-> None, port |-> None, pathname |-> None, query |-> None, hash |-> None]
Doc(s, u) ==  \* s is empty or starts with / ? or #
    LET h == Index(s, 35)
        a == IF h = 0 THEN s ELSE Sub(s, 1, h - 1)
        q == Index(a, 63)
        path == IF q = 0 THEN a ELSE Sub(a, 1, q - 1)
    IN [u EXCEPT !.pathname = IF path = None THEN <<47>> ELSE path,
                 !.query = IF q = 0 THEN None ELSE From(a, q + 1),
                 !.hash = IF h = 0 THEN None ELSE From(s, h)]
Count(s, c) == Cardinality({i \in DOMAIN s : s[i] = c})
Port(s, u) == IF s = None THEN u ELSE IF s[1] # 58 \/ ~Digits(From(s, 2)) THEN [u EXCEPT !.k = IF @ = "throw" THEN @ ELSE "any"] ELSE [u EXCEPT !.port = From(s, 2)]
HostPort(s, u) ==
    IF s # None /\ s[1] = 91
    THEN LET e == Index(s, 93) IN IF e = 0 THEN [u EXCEPT !.k = "any"] ELSE Port(From(s, e + 1), [u EXCEPT !.hostname = Sub(s, 1, e)])
    ELSE LET e == Index(s, 58) IN
         IF s = None \/ e = 1 THEN [u EXCEPT !.k = "throw"]
         ELSE IF e = 0 THEN [u EXCEPT !.hostname = s] ELSE Port(From(s, e), [u EXCEPT !.hostname = Sub(s, 1, e - 1)])
Authority(s, u) ==
    LET at == Index(s, 64)  c == Sub(s, 1, at - 1)  e == Index(c, 58) IN
    IF Count(s, 64) > 1 THEN [u EXCEPT !.k = "any"]
    ELSE IF at = 0 THEN HostPort(s, u)
    ELSE HostPort(From(s, at + 1), [u EXCEPT !.username = IF e = 0 THEN c ELSE Sub(c, 1, e - 1), !.password = IF e = 0 THEN None ELSE From(c, e + 1)])
Parse(s) ==
    IF s # None /\ s[1] = 47 THEN Doc(s, NoUrl("url"))
    ELSE LET p == FindStr(s, <<58, 47, 47>>, 1)  sch == Sub(s, 1, p - 1)
             rest == From(s, p + 3)  e == Find(rest, {47, 63, 35}, 1)
             auth == IF e = 0 THEN rest ELSE Sub(rest, 1, e - 1)
             u == Authority(auth, [NoUrl("url") EXCEPT !.protocol = sch])
             d == Doc(IF e = 0 THEN None ELSE From(rest, e), u)
         IN IF p < 2 \/ Find(sch, {47, 63, 35, 64, 58}, 1) # 0 THEN NoUrl("throw")
            ELSE IF u.k # "url" THEN u
            ELSE IF e # 0 /\ rest[e] # 47 THEN [d EXCEPT !.k = "maybe"] ELSE d
(* value of a query parameter; names are compared in lower case, the first of two equal ones is not settled *)
Param(q, n) == LET P == Split(q, 38)
                   I == {i \in DOMAIN P : LET e == Index(P[i], 61) IN e > 1 /\ Lower(Sub(P[i], 1, e - 1)) = Lower(n)}
               IN IF I = {} THEN None ELSE LET i == CHOOSE i \in I : TRUE IN From(P[i], Index(P[i], 61) + 1)
=============================================================================
