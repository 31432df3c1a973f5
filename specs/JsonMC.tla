------------------------------- MODULE JsonMC -------------------------------
(* Writing every small value and reading it back: with the standard's parser,  *)
(* and with one that first cuts a container at its top-level commas.           *)
EXTENDS JsonOps
CONSTANTS Limit, Bug
VARIABLE v
Letters == {34, 92, 44, 91, 125, 58, 10, 97}
Strings == UNION {[1..n -> Letters] : n \in 0..Limit}
Short == UNION {[1..n -> {34, 92, 44, 125, 58}] : n \in 0..2}
Esc(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> IF Bug = "rawslash" THEN <<92>> ELSE <<92, 92>> [] c = 10 -> IF Bug = "rawcontrol" THEN <<10>> ELSE <<92, 110>> [] OTHER -> <<c>>
Quote(s) == <<34>> \o Cat([i \in DOMAIN s |-> Esc(s[i])]) \o <<34>>
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<44>> \o Join(Tail(ss))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RECURSIVE Write(_)
Write(x) == CASE x.k = "n" -> NullT [] x.k = "b" -> IF x.b THEN True ELSE False [] x.k = "i" -> x.i [] x.k = "s" -> Quote(x.s)
              [] x.k = "a" -> <<91>> \o Join([i \in DOMAIN x.a |-> Write(x.a[i])]) \o <<93>>
              [] OTHER -> LET M == SeqOf(x.o) IN <<123>> \o Join([i \in DOMAIN M |-> (IF Bug = "rawkey" THEN <<34>> \o M[i][1] \o <<34>> ELSE Quote(M[i][1])) \o <<58>> \o Write(M[i][2])]) \o <<125>>
(* the cutting reader: positions of top-level commas, strings skipped *)
RECURSIVE EndOfString(_, _)
EndOfString(s, i) == IF i > Len(s) THEN Len(s)
                     ELSE IF s[i] = 34 /\ ~(Bug = "lookback" /\ i > 1 /\ s[i - 1] = 92) THEN i
                     ELSE IF s[i] = 92 /\ Bug # "lookback" THEN EndOfString(s, i + 2) ELSE EndOfString(s, i + 1)
RECURSIVE Cuts(_, _, _)
Cuts(s, i, d) == IF i >= Len(s) THEN <<>>
                 ELSE IF s[i] = 34 /\ Bug # "nostrings" THEN Cuts(s, EndOfString(s, i + 1) + 1, d)
                 ELSE IF s[i] \in {91, 123} THEN Cuts(s, i + 1, d + 1)
                 ELSE IF s[i] \in {93, 125} THEN Cuts(s, i + 1, d - 1)
                 ELSE IF s[i] = 44 /\ d = 0 THEN <<i>> \o Cuts(s, i + 1, d) ELSE Cuts(s, i + 1, d)
Segments(s) == LET c == Cuts(s, 2, 0) b == <<1>> \o c e == c \o <<Len(s)>> IN [i \in DOMAIN b |-> Sub(s, b[i] + 1, e[i] - 1)]
RECURSIVE Read(_)
Read(s) == IF s = <<>> THEN No
           ELSE IF s[1] = 91 THEN (IF Len(s) = 2 /\ Bug # "emptyitem" THEN Yes(Arr(<<>>), 3)
                                   ELSE LET g == Segments(s) r == [i \in DOMAIN g |-> Read(g[i])] IN IF \E i \in DOMAIN r : ~r[i].ok THEN No ELSE Yes(Arr([i \in DOMAIN r |-> r[i].v]), Len(s) + 1))
           ELSE IF s[1] = 123 THEN (IF Len(s) = 2 THEN Yes(Obj({}), 3)
                                    ELSE LET g == Segments(s)
                                             e == [i \in DOMAIN g |-> EndOfString(g[i], 2)]
                                             n == [i \in DOMAIN g |-> IF g[i] = <<>> THEN No ELSE Parse(Sub(g[i], 1, e[i]))]
                                             r == [i \in DOMAIN g |-> Read(From(g[i], e[i] + 2))]
                                         IN IF \E i \in DOMAIN g : ~n[i].ok \/ ~r[i].ok THEN No ELSE Yes(Obj({<<n[i].v.s, r[i].v>> : i \in DOMAIN g}), Len(s) + 1))
           ELSE Parse(s)
Scalars == {Null, Bool(TRUE), IntV(<<45, 49>>), IntV(<<48>>)} \cup {Str(s) : s \in Short}
Init == \/ \E s \in Strings : v \in {Str(s), Arr(<<Str(s)>>), Obj({<<s, Null>>})}
        \/ \E x, y \in Scalars : v \in {Arr(<<x, y>>), Arr(<<Arr(<<x>>), y>>), Arr(<<Obj({<<<<97>>, x>>}), Arr(<<>>), y>>)}
        \/ \E a, b \in Short, x \in {Null, Arr(<<>>), Obj({}), Str(<<34>>), Str(<<92>>)} : v = Obj({<<a, x>>, <<b \o <<97>>, Str(b)>>})
        \/ v \in Scalars \cup {Arr(<<>>), Obj({}), Obj({<<<<>>, Arr(<<>>)>>})}
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
Standard == LET r == Parse(Write(v)) IN r.ok /\ r.v = v
Own == LET r == Read(Write(v)) IN r.ok /\ r.v = v
=============================================================================
