------------------------------ MODULE CodecTrace ------------------------------
(* Recorded calls of the text codecs and of SHA-1, judged one by one.          *)
EXTENDS Codec, Sha1, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, done
B64Chars == Alnum \cup {43, 47}
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63
(* characters without padding -> bytes; left over bits are dropped *)
Sextets(s) == TLCEval([i \in DOMAIN s |-> B64Val(s[i])])
UnB64(s) == LET x == Sextets(s) n == (Len(s) * 6) \div 8 IN
    TLCEval([i \in 1..n |-> LET q == ((i - 1) \div 3) * 4 IN
        CASE (i - 1) % 3 = 0 -> x[q + 1] * 4 + x[q + 2] \div 16
          [] (i - 1) % 3 = 1 -> ((x[q + 2] % 16) * 16) + x[q + 3] \div 4
          [] OTHER -> ((x[q + 3] % 4) * 64) + x[q + 4]])
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = 61 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Refused(c) == c.out.k = "throw"
Gives(c, v) == c.out.k = "v" /\ c.out.v = v
(* what RFC 4648 calls an encoding must be decoded; missing or short padding and stray bits may be refused or *)
(* overlooked; anything else must be refused                                                                  *)
B64Dec(c) ==
    LET s == c.in  p == Strip(s)  pad == Len(s) - Len(p)  v == UnB64(p) IN
    IF (\E i \in DOMAIN p : p[i] \notin B64Chars) \/ (Len(p) % 4) = 1 \/ pad > 2 \/ (pad > 0 /\ (Len(p) % 4) = 0) THEN Refused(c)
    ELSE IF ToBase64(v) = s THEN Gives(c, v)
    ELSE Refused(c) \/ (Len(p) + pad <= 4 * ((Len(p) + 3) \div 4) /\ Gives(c, v))
UnHex(s) == TLCEval([i \in 1..(Len(s) \div 2) |-> HexVal(s[2 * i - 1]) * 16 + HexVal(s[2 * i])])
IsHex(s) == (Len(s) % 2) = 0 /\ \A i \in DOMAIN s : HexVal(s[i]) < 16
RECURSIVE WellPercent(_)
WellPercent(s) == IF s = <<>> THEN TRUE
                  ELSE IF s[1] = 37 THEN Len(s) >= 3 /\ HexVal(s[2]) < 16 /\ HexVal(s[3]) < 16 /\ WellPercent(From(s, 4))
                  ELSE WellPercent(Tail(s))
Component == Unreserved \cup {33, 39, 40, 41, 42, 37}
Right(c) ==
    CASE c.op = "b64e" -> Gives(c, ToBase64(c.in))
      [] c.op = "b64d" -> B64Dec(c)
      [] c.op = "hexe" -> c.out.k = "v" /\ Lower(c.out.v) = ToHex(c.in)
      [] c.op = "hexd" -> IF IsHex(c.in) THEN Gives(c, UnHex(c.in)) ELSE Refused(c)
      [] c.op = "urle" -> c.out.k = "v" /\ (\A i \in DOMAIN c.out.v : c.out.v[i] \in Component) /\ WellPercent(c.out.v) /\ Unpercent(c.out.v) = c.in
      [] c.op = "urld" -> IF WellPercent(c.in) THEN Gives(c, Unpercent(c.in)) ELSE Refused(c) \/ Gives(c, Unpercent(c.in))
      [] c.op = "sha" -> Gives(c, Sha1(Cat(c.in)))
      [] c.op = "shabig" -> Gives(c, c.ref)
      [] OTHER -> FALSE
Init == t \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ Right(Cases[t]) /\ done' = TRUE /\ t' = t /\ PrintT("ACC " \o ToString(t))
=============================================================================
