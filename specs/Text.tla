-------------------------------- MODULE Text --------------------------------
(* Byte strings as sequences of 0..255, and the operations on them that the *)
(* text protocols of the library need.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CR == 13
LF == 10
SP == 32
TAB == 9
LowC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == TLCEval([i \in 1..Len(s) |-> LowC(s[i])])
Blank == {9, 10, 13, 32}
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
From(s, a) == Sub(s, a, Len(s))
(* first position >= k of a byte of C, or 0 *)
RECURSIVE Find(_, _, _)
Find(s, C, k) == IF k > Len(s) THEN 0 ELSE IF s[k] \in C THEN k ELSE Find(s, C, k + 1)
Index(s, c) == Find(s, {c}, 1)
(* first position >= k where t occurs, or 0 *)
At(s, t, k) == k + Len(t) - 1 <= Len(s) /\ s[k] = t[1] /\ \A j \in 2..Len(t) : s[k + j - 1] = t[j]
RECURSIVE FindStr(_, _, _)
FindStr(s, t, k) == IF k + Len(t) - 1 > Len(s) THEN 0 ELSE IF At(s, t, k) THEN k ELSE FindStr(s, t, k + 1)
Has(s, t) == FindStr(s, t, 1) # 0
StartsWith(s, t) == At(s, t, 1)
EndsWith(s, t) == Len(t) <= Len(s) /\ Sub(s, Len(s) - Len(t) + 1, Len(s)) = t
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Blank THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
(* all parts between the separators, empty ones included *)
SplitStr(s, t) ==
    LET pos == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : At(s, t, i)) IN
    TLCEval([j \in 1..(Len(pos) + 1) |-> Sub(s, IF j = 1 THEN 1 ELSE pos[j - 1] + Len(t), IF j > Len(pos) THEN Len(s) ELSE pos[j] - 1)])
Split(s, c) == SplitStr(s, <<c>>)
UpTo(s, c) == LET k == Index(s, c) IN IF k = 0 THEN s ELSE Sub(s, 1, k - 1)
After(s, c) == LET k == Index(s, c) IN IF k = 0 THEN <<>> ELSE From(s, k + 1)
Digits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
RECURSIVE NumOf(_, _)
(* decimal value, cut off at 10^8 so that it stays a TLC integer *)
NumOf(s, acc) == IF s = <<>> THEN acc ELSE IF acc >= 100000000 THEN 100000000 ELSE NumOf(Tail(s), acc * 10 + Head(s) - 48)
Num(s) == NumOf(s, 0)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
