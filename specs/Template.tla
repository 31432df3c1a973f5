------------------------------ MODULE Template ------------------------------
(* What a template means: the leftmost placeholders {{ name }} are replaced,  *)
(* everything else, values included, is copied.                               *)
EXTENDS Text
NameChars == (48..57) \cup (65..90) \cup (97..122) \cup {95}
RECURSIVE Skip(_, _, _)
Skip(s, C, k) == IF k <= Len(s) /\ s[k] \in C THEN Skip(s, C, k + 1) ELSE k
(* <<start of name, end of name, end of placeholder>>, or <<0, 0, 0>> *)
HoleAt(s, i) ==
    IF ~(i + 1 <= Len(s) /\ s[i] = 123 /\ s[i + 1] = 123) THEN <<0, 0, 0>>
    ELSE LET a == Skip(s, {32, 9}, i + 2)  b == Skip(s, NameChars, a)  c == Skip(s, {32, 9}, b) IN
         IF b > a /\ c + 1 <= Len(s) /\ s[c] = 125 /\ s[c + 1] = 125 THEN <<a, b - 1, c + 1>> ELSE <<0, 0, 0>>
(* props: sequence of <<name, value>> *)
ValueOf(props, n) == LET I == {i \in DOMAIN props : props[i][1] = n} IN IF I = {} THEN <<>> ELSE props[CHOOSE i \in I : TRUE][2]
RECURSIVE RenderFrom(_, _, _)
RenderFrom(s, props, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET h == HoleAt(s, i) IN
         IF h[1] # 0 THEN ValueOf(props, SubSeq(s, h[1], h[2])) \o RenderFrom(s, props, h[3] + 1)
         ELSE LET j == Find(s, {123}, i + 1) e == IF j = 0 THEN Len(s) ELSE j - 1 IN
              Sub(s, i, e) \o RenderFrom(s, props, e + 1)
Render(s, props) == RenderFrom(s, props, 1)
=============================================================================
