------------------------------- MODULE JsonOps -------------------------------
(* JSON texts and the values they stand for (RFC 8259), over byte strings.      *)
(* A value is [k |-> "n"], [k |-> "b", b], [k |-> "i", i (decimal digits)],      *)
(* [k |-> "s", s], [k |-> "a", a (sequence)], [k |-> "o", o (set of <<name,      *)
(* value>>)]; the parser gives [ok, v, p] with p the position after the value.   *)
EXTENDS Text
Null == [k |-> "n"]
Bool(b) == [k |-> "b", b |-> b]
IntV(s) == [k |-> "i", i |-> s]
Str(s) == [k |-> "s", s |-> s]
Arr(a) == [k |-> "a", a |-> a]
Obj(o) == [k |-> "o", o |-> o]
(* values as they come from a trace: object members in a sequence *)
RECURSIVE Canon(_)
Canon(v) == CASE v.k = "a" -> Arr([i \in DOMAIN v.a |-> Canon(v.a[i])])
              [] v.k = "o" -> Obj({<<v.o[i][1], Canon(v.o[i][2])>> : i \in DOMAIN v.o})
              [] OTHER -> v
Ws == {32, 9, 10, 13}
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ s[i] \in Ws THEN Skip(s, i + 1) ELSE i
No == [ok |-> FALSE, v |-> Null, p |-> 0]
Yes(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
HexV(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Hex4(s, i) == IF i + 3 > Len(s) \/ \E j \in i..(i + 3) : HexV(s[j]) < 0 THEN -1
              ELSE ((HexV(s[i]) * 16 + HexV(s[i + 1])) * 16 + HexV(s[i + 2])) * 16 + HexV(s[i + 3])
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
(* the string whose first character is at i *)
RECURSIVE StrAt(_, _, _)
StrAt(s, i, acc) ==
    IF i > Len(s) \/ s[i] < 32 THEN No
    ELSE IF s[i] = 34 THEN Yes(Str(acc), i + 1)
    ELSE IF s[i] # 92 THEN StrAt(s, i + 1, Append(acc, s[i]))
    ELSE IF i = Len(s) THEN No
    ELSE LET c == s[i + 1] IN
         CASE c \in {34, 92, 47} -> StrAt(s, i + 2, Append(acc, c))
           [] c = 98 -> StrAt(s, i + 2, Append(acc, 8))
           [] c = 102 -> StrAt(s, i + 2, Append(acc, 12))
           [] c = 110 -> StrAt(s, i + 2, Append(acc, 10))
           [] c = 114 -> StrAt(s, i + 2, Append(acc, 13))
           [] c = 116 -> StrAt(s, i + 2, Append(acc, 9))
           [] c = 117 -> LET h == Hex4(s, i + 2)
                             lo == IF i + 7 <= Len(s) /\ s[i + 6] = 92 /\ s[i + 7] = 117 THEN Hex4(s, i + 8) ELSE -1 IN
                         IF h < 0 THEN No
                         ELSE IF h \in 55296..56319 /\ lo \in 56320..57343
                              THEN StrAt(s, i + 12, acc \o Utf8(65536 + (h - 55296) * 1024 + (lo - 56320)))
                              ELSE StrAt(s, i + 6, acc \o Utf8(h))
           [] OTHER -> No
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ s[i] \in 48..57 THEN DigitsEnd(s, i + 1) ELSE i
IntAt(s, i) == LET f == IF s[i] = 45 THEN i + 1 ELSE i  e == DigitsEnd(s, f) IN
               IF e = f \/ (s[f] = 48 /\ e > f + 1) \/ (e <= Len(s) /\ s[e] \in {46, 101, 69}) THEN No ELSE Yes(IntV(Sub(s, i, e - 1)), e)
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
NullT == <<110, 117, 108, 108>>
Is(s, i, t) == i + Len(t) - 1 <= Len(s) /\ Sub(s, i, i + Len(t) - 1) = t
RECURSIVE ValueAt(_, _)
RECURSIVE ItemsAt(_, _, _)
RECURSIVE MembersAt(_, _, _)
ValueAt(s, i0) ==
    LET i == Skip(s, i0) IN
    IF i > Len(s) THEN No
    ELSE LET c == s[i] IN
         CASE c = 34 -> StrAt(s, i + 1, <<>>)
           [] c = 45 \/ c \in 48..57 -> IntAt(s, i)
           [] c = 91 -> LET j == Skip(s, i + 1) IN IF j <= Len(s) /\ s[j] = 93 THEN Yes(Arr(<<>>), j + 1) ELSE ItemsAt(s, i + 1, <<>>)
           [] c = 123 -> LET j == Skip(s, i + 1) IN IF j <= Len(s) /\ s[j] = 125 THEN Yes(Obj({}), j + 1) ELSE MembersAt(s, i + 1, {})
           [] OTHER -> IF Is(s, i, True) THEN Yes(Bool(TRUE), i + 4) ELSE IF Is(s, i, False) THEN Yes(Bool(FALSE), i + 5)
                       ELSE IF Is(s, i, NullT) THEN Yes(Null, i + 4) ELSE No
ItemsAt(s, i, acc) ==
    LET r == TLCEval(ValueAt(s, i)) IN
    IF ~r.ok THEN No
    ELSE LET j == Skip(s, r.p) a == Append(acc, r.v) IN
         IF j > Len(s) THEN No ELSE IF s[j] = 93 THEN Yes(Arr(a), j + 1) ELSE IF s[j] = 44 THEN ItemsAt(s, j + 1, a) ELSE No
MembersAt(s, i0, acc) ==
    LET i == Skip(s, i0) IN
    IF i > Len(s) THEN No ELSE IF s[i] # 34 THEN No
    ELSE LET n == TLCEval(StrAt(s, i + 1, <<>>)) IN
         IF ~n.ok THEN No
         ELSE LET c == Skip(s, n.p) IN
              IF c > Len(s) THEN No ELSE IF s[c] # 58 THEN No
              ELSE LET r == TLCEval(ValueAt(s, c + 1)) IN
                   IF ~r.ok THEN No
                   ELSE LET j == Skip(s, r.p) a == acc \cup {<<n.v.s, r.v>>} IN
                        IF j > Len(s) THEN No ELSE IF s[j] = 125 THEN Yes(Obj(a), j + 1) ELSE IF s[j] = 44 THEN MembersAt(s, j + 1, a) ELSE No
Parse(s) == LET r == ValueAt(s, 1) IN IF r.ok /\ Skip(s, r.p) = Len(s) + 1 THEN r ELSE No
=============================================================================
