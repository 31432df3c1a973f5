------------------------------- MODULE StrOps -------------------------------
(* What the string helpers of the library give, by definition.                *)
EXTENDS Text
UpC(c) == IF c \in 97..122 THEN c - 32 ELSE c
Upper(s) == TLCEval([i \in DOMAIN s |-> UpC(s[i])])
(* a capital at the start and after blanks and hyphens, small letters elsewhere *)
Title(s) == TLCEval([i \in DOMAIN s |-> IF i = 1 \/ s[IF i = 1 THEN 1 ELSE i - 1] \in {32, 45} THEN UpC(s[i]) ELSE LowC(s[i])])
Occurs(s, t) == t = <<>> \/ Has(s, t)
Starts(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
(* positions of the occurrences of t, from left to right, none overlapping the one before *)
RECURSIVE Spots(_, _, _)
Spots(s, t, k) == LET p == FindStr(s, t, k) IN IF p = 0 THEN <<>> ELSE <<p>> \o Spots(s, t, p + Len(t))
Pieces(s, t) == LET q == Spots(s, t, 1) IN
    TLCEval([j \in 1..(Len(q) + 1) |-> Sub(s, IF j = 1 THEN 1 ELSE q[j - 1] + Len(t), IF j > Len(q) THEN Len(s) ELSE q[j] - 1)])
(* a last piece with nothing in it is left out *)
SplitBy(s, t) == IF s = <<>> THEN <<>> ELSE IF t = <<>> THEN <<s>>
                 ELSE LET p == Pieces(s, t) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
RECURSIVE Glue(_, _)
Glue(ps, t) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o t \o Glue(Tail(ps), t)
Swap(s, t, r) == LET p == FindStr(s, t, 1) IN IF p = 0 THEN s ELSE Sub(s, 1, p - 1) \o r \o From(s, p + Len(t))
SwapAll(s, t, r) == Glue(Pieces(s, t), r)
=============================================================================
