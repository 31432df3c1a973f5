------------------------------- MODULE PageMC -------------------------------
(* A message put into a page and read back by an HTML reader: text comes back    *)
(* as it was and opens no tag.                                                   *)
EXTENDS Text
CONSTANTS Limit, Bug
VARIABLE m
Letters == {60, 62, 38, 34, 97, 59, 108, 116}
Entity(c) == CASE c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>> [] c = 38 -> <<38, 97, 109, 112, 59>> [] c = 34 -> <<38, 113, 117, 111, 116, 59>> [] OTHER -> <<c>>
Esc1(c) == IF Bug = "none_" \/ (Bug = "rawamp" /\ c = 38) \/ (Bug = "rawless" /\ c = 60) THEN <<c>> ELSE Entity(c)
Esc(s) == Cat([i \in DOMAIN s |-> Esc1(s[i])])
Write(s) == IF Bug = "twice" THEN Esc(Esc(s)) ELSE Esc(s)
(* the reader: text, inside a tag, and how many tags were opened *)
Known == {<<108, 116>>, <<103, 116>>, <<97, 109, 112>>, <<113, 117, 111, 116>>}
Val(n) == CASE n = <<108, 116>> -> 60 [] n = <<103, 116>> -> 62 [] n = <<97, 109, 112>> -> 38 [] OTHER -> 34
RECURSIVE Read(_, _, _)
Read(s, i, r) ==
    IF i > Len(s) THEN r
    ELSE IF r.tag THEN Read(s, i + 1, [r EXCEPT !.tag = s[i] # 62])
    ELSE IF s[i] = 60 /\ i < Len(s) /\ s[i + 1] \in 97..122 THEN Read(s, i + 1, [r EXCEPT !.tag = TRUE, !.tags = @ + 1])
    ELSE IF s[i] = 38 THEN LET e == Find(s, {59}, i) n == IF e = 0 THEN <<>> ELSE Sub(s, i + 1, e - 1) IN
                           IF n \in Known THEN Read(s, e + 1, [r EXCEPT !.text = Append(@, Val(n))]) ELSE Read(s, i + 1, [r EXCEPT !.text = Append(@, 38)])
    ELSE Read(s, i + 1, [r EXCEPT !.text = Append(@, s[i])])
Init == m \in UNION {[1..n -> Letters] : n \in 0..Limit}
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
AsData == LET r == Read(Write(m), 1, [text |-> <<>>, tag |-> FALSE, tags |-> 0]) IN r.text = m /\ r.tags = 0
=============================================================================
