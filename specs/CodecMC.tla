------------------------------- MODULE CodecMC -------------------------------
(* The codecs as machines that see one byte at a time: base64 as a bit buffer,*)
(* percent decoding as an automaton, and the block buffering of a             *)
(* Merkle-Damgard hash (block of BS bytes, one length byte) fed in chunks.    *)
EXTENDS Codec
CONSTANTS Bytes, Max, Bug
VARIABLES kind, in, acc, nb, out
vars == <<kind, in, acc, nb, out>>
BS == 4
(* base64: acc = bits not yet emitted, nb = their number *)
B64Step(b) == LET a == (acc * 256) + b  n == nb + 8 IN
    IF n >= 12 THEN <<out \o <<B64((a \div (2 ^ (n - 6))) % 64), B64((a \div (2 ^ (n - 12))) % 64)>>, a % (2 ^ (n - 12)), n - 12>>
    ELSE <<Append(out, B64((a \div (2 ^ (n - 6))) % 64)), a % (2 ^ (n - 6)), n - 6>>
B64End == IF nb = 0 THEN out
          ELSE LET c == B64((acc * (2 ^ (6 - nb))) % 64) IN
               out \o (IF Bug = "nopad" THEN <<c>> ELSE IF nb = 2 THEN <<c, 61, 61>> ELSE <<c, 61>>)
(* hash: acc = sequence of pending bytes, nb = length seen, out = blocks compressed *)
HStep(b) == LET a == Append(acc, b) IN
    IF Len(a) = BS THEN <<Append(out, a), <<>>, IF Bug = "lenlost" THEN nb ELSE nb + 1>> ELSE <<out, a, nb + 1>>
Zeros(n) == [i \in 1..n |-> 0]
HEnd == LET a == Append(acc, 128) limit == IF Bug = "bound" THEN BS ELSE BS - 1 IN
        IF Len(a) <= limit THEN Append(out, SubSeq(a \o Zeros(BS), 1, BS - 1) \o <<nb>>)
        ELSE out \o <<SubSeq(a \o Zeros(BS), 1, BS)>> \o <<Zeros(BS - 1) \o <<nb>>>>
Padded4(m) == LET z == (BS - ((Len(m) + 2) % BS)) % BS IN m \o <<128>> \o Zeros(z) \o <<Len(m)>>
Blocks(p) == [i \in 1..(Len(p) \div BS) |-> SubSeq(p, BS * i - BS + 1, BS * i)]
(* percent decoding: acc = pending "%" or "%X" *)
PStep(b) == IF acc = <<>> THEN (IF b = 37 THEN <<out, <<37>>, 0>> ELSE <<Append(out, b), <<>>, 0>>)
            ELSE IF Len(acc) = 1 THEN (IF HexVal(b) < 16 THEN <<out, acc \o <<b>>, 0>>
                                       ELSE IF b = 37 THEN <<out \o acc, <<37>>, 0>> ELSE <<out \o acc \o <<b>>, <<>>, 0>>)
            ELSE IF HexVal(b) < 16 THEN <<Append(out, HexVal(acc[2]) * 16 + HexVal(b)), <<>>, 0>>
            ELSE IF Bug = "swallow" THEN <<out, <<>>, 0>>
            ELSE IF b = 37 THEN <<out \o acc, <<37>>, 0>> ELSE <<out \o acc \o <<b>>, <<>>, 0>>
PEnd == out \o acc
Init == kind \in {"b64", "hash", "url"} /\ in = <<>> /\ nb = 0 /\ out = <<>> /\ acc = (IF kind = "b64" THEN 0 ELSE <<>>)
Feed(b) == LET r == IF kind = "b64" THEN B64Step(b) ELSE IF kind = "hash" THEN HStep(b) ELSE PStep(b) IN
           in' = Append(in, b) /\ out' = r[1] /\ acc' = r[2] /\ nb' = r[3] /\ kind' = kind
Next == Len(in) < Max /\ \E b \in Bytes : Feed(b)
Spec == Init /\ [][Next]_vars
SameB64 == kind = "b64" => B64End = ToBase64(in)
SameHash == kind = "hash" => HEnd = Blocks(Padded4(in))
SameUrl == kind = "url" => PEnd = Unpercent(in)
=============================================================================
