-------------------------------- MODULE Codec --------------------------------
(* RFC 4648 base64 and base16, and percent encoding, over byte sequences.     *)
EXTENDS Text
B64(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
RECURSIVE ToBase64(_)
ToBase64(s) ==
    IF s = <<>> THEN <<>>
    ELSE IF Len(s) = 1 THEN <<B64(s[1] \div 4), B64(((s[1] % 4) * 16)), 61, 61>>
    ELSE IF Len(s) = 2 THEN <<B64(s[1] \div 4), B64(((s[1] % 4) * 16) + s[2] \div 16), B64(((s[2] % 16) * 4)), 61>>
    ELSE <<B64(s[1] \div 4), B64(((s[1] % 4) * 16) + s[2] \div 16), B64(((s[2] % 16) * 4) + s[3] \div 64), B64(s[3] % 64)>> \o ToBase64(From(s, 4))
HexC(v) == IF v < 10 THEN 48 + v ELSE 87 + v
ToHex(s) == TLCEval([i \in 1..(2 * Len(s)) |-> LET b == s[(i + 1) \div 2] IN HexC(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)])
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
Alnum == (48..57) \cup (65..90) \cup (97..122)
(* RFC 3986 unreserved *)
Unreserved == Alnum \cup {45, 46, 95, 126}
UpHexC(v) == IF v < 10 THEN 48 + v ELSE 55 + v
(* a decoder of percent encoding: %XX in either case; everything else stands for itself *)
RECURSIVE Unpercent(_)
Unpercent(s) == IF s = <<>> THEN <<>>
                ELSE IF s[1] = 37 /\ Len(s) >= 3 /\ HexVal(s[2]) < 16 /\ HexVal(s[3]) < 16
                     THEN <<HexVal(s[2]) * 16 + HexVal(s[3])>> \o Unpercent(From(s, 4))
                     ELSE <<s[1]>> \o Unpercent(Tail(s))
=============================================================================
