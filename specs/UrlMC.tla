-------------------------------- MODULE UrlMC --------------------------------
(* A reader that sees the URL once, byte by byte, arrives at the same parts as  *)
(* looking for delimiters.                                                      *)
EXTENDS UrlOps
LOCAL INSTANCE SequencesExt
CONSTANTS Limit, Bug
Alphabet == {49, 58, 47, 64, 63, 35}
VARIABLES s, r
Start == [mode |-> "start", x |-> None, y |-> None, colons |-> 0, ats |-> 0, u |-> NoUrl("url")]
Take(m, c) == [m EXCEPT !.x = Append(@, c)]
Close(m, mode) ==  \* end of the authority
    LET bad == m.x = None /\ (Bug # "nohost")
        v == [m.u EXCEPT !.hostname = m.x, !.port = m.y, !.k = IF m.ats > 1 THEN "any" ELSE IF bad THEN "throw" ELSE IF m.colons > 1 \/ (m.colons = 1 /\ ~Digits(m.y)) THEN "any" ELSE @]
    IN [m EXCEPT !.mode = mode, !.u = v, !.x = None]
Step(m, c) ==
    CASE m.mode = "start" -> IF c = 47 THEN [m EXCEPT !.mode = "path", !.x = <<47>>] ELSE IF c \in {58, 64, 63, 35} THEN [m EXCEPT !.mode = "bad"] ELSE [m EXCEPT !.mode = "scheme", !.x = <<c>>]
      [] m.mode = "scheme" -> IF c = 58 THEN [m EXCEPT !.mode = "sep1"] ELSE IF c \in {47, 64, 63, 35} THEN [m EXCEPT !.mode = "bad"] ELSE Take(m, c)
      [] m.mode = "sep1" -> IF c = 47 THEN [m EXCEPT !.mode = "sep2"] ELSE [m EXCEPT !.mode = "bad"]
      [] m.mode = "sep2" -> IF c = 47 THEN [m EXCEPT !.mode = "auth", !.u.protocol = m.x, !.x = None] ELSE [m EXCEPT !.mode = "bad"]
      [] m.mode = "auth" -> IF c = 64 THEN [m EXCEPT !.u.username = m.x, !.u.password = m.y, !.x = None, !.y = None, !.colons = IF Bug = "colonstays" THEN @ ELSE 0, !.ats = @ + 1]
                            ELSE IF c = 58 /\ m.colons = 0 THEN [m EXCEPT !.colons = 1]
                            ELSE IF c = 58 THEN [m EXCEPT !.colons = @ + 1, !.y = Append(@, c)]
                            ELSE IF c = 47 THEN [Close(m, "path") EXCEPT !.x = <<47>>]
                            ELSE IF c \in {63, 35} THEN LET n == Close(m, IF c = 63 THEN "query" ELSE "hash") IN
                                 [n EXCEPT !.u.pathname = <<47>>, !.u.k = IF @ = "url" THEN "maybe" ELSE @, !.x = IF c = 35 THEN <<35>> ELSE None]
                            ELSE IF m.colons > 0 THEN [m EXCEPT !.y = Append(@, c)] ELSE Take(m, c)
      [] m.mode = "path" -> IF c = 63 THEN [m EXCEPT !.mode = "query", !.u.pathname = m.x, !.x = None]
                            ELSE IF c = 35 THEN [m EXCEPT !.mode = "hash", !.u.pathname = m.x, !.x = <<35>>] ELSE Take(m, c)
      [] m.mode = "query" -> IF c = 35 /\ Bug # "hashinquery" THEN [m EXCEPT !.mode = "hash", !.u.query = m.x, !.x = <<35>>] ELSE Take(m, c)
      [] m.mode = "hash" -> IF c = 63 /\ Bug = "queryinhash" THEN [m EXCEPT !.mode = "query", !.u.hash = m.x, !.x = None] ELSE Take(m, c)
      [] OTHER -> m
End(m) == CASE m.mode \in {"start", "scheme", "sep1", "sep2", "bad"} -> NoUrl("throw")
            [] m.mode = "auth" -> [Close(m, "path").u EXCEPT !.pathname = <<47>>]
            [] m.mode = "path" -> [m.u EXCEPT !.pathname = m.x]
            [] m.mode = "query" -> [m.u EXCEPT !.query = m.x]
            [] OTHER -> [m.u EXCEPT !.hash = m.x]
Init == \E p \in {<<>>, <<49, 58, 47, 47>>} : s = p /\ r = FoldLeft(Step, Start, p)
Next == Len(s) < Limit + (IF s # <<>> /\ s[1] = 49 THEN 4 ELSE 0) /\ \E c \in Alphabet : s' = Append(s, c) /\ r' = Step(r, c)
Spec == Init /\ [][Next]_<<s, r>>
Same == LET a == Parse(s) b == End(r) IN a.k = b.k /\ (a.k \in {"url", "maybe"} => a = b)
=============================================================================
