-------------------------------- MODULE Sha1 --------------------------------
(* FIPS 180-4 SHA-1 over byte sequences.  A 32 bit word is <<high, low>>     *)
(* with 16 bits each, because TLC's integers are 32 bit signed.              *)
EXTENDS Naturals, Sequences, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Bitwise
Add(a, b) == LET lo == a[2] + b[2] IN <<((a[1] + b[1] + (lo \div 65536)) % 65536), (lo % 65536)>>
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
Rotl1(x) == <<((x[1] * 2) % 65536) + x[2] \div 32768, ((x[2] * 2) % 65536) + x[1] \div 32768>>
Rotl5(x) == <<((x[1] * 32) % 65536) + x[2] \div 2048, ((x[2] * 32) % 65536) + x[1] \div 2048>>
Rotl30(x) == <<(x[1] \div 4) + ((x[2] % 4) * 16384), (x[2] \div 4) + ((x[1] % 4) * 16384)>>
(* messages of less than 2^28 bytes *)
Padded(m) == LET n == Len(m) bits == n * 8 z == (55 - n) % 64 IN
    TLCEval(m \o <<128>> \o [i \in 1..(IF z < 0 THEN z + 64 ELSE z) |-> 0]
        \o <<0, 0, 0, 0, (bits \div 16777216) % 256, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>)
Word(p, i) == <<p[i] * 256 + p[i + 1], p[i + 2] * 256 + p[i + 3]>>
Extend(w) == FoldLeft(LAMBDA v, n : Append(v, Rotl1(XorW(XorW(v[n - 3], v[n - 8]), XorW(v[n - 14], v[n - 16])))), w, [k \in 1..64 |-> k + 16])
F(i, b, c, d) == IF i <= 20 THEN OrW(AndW(b, c), AndW(NotW(b), d))
                 ELSE IF i <= 40 \/ i > 60 THEN XorW(XorW(b, c), d)
                 ELSE OrW(OrW(AndW(b, c), AndW(b, d)), AndW(c, d))
K(i) == IF i <= 20 THEN <<23170, 31129>> ELSE IF i <= 40 THEN <<28377, 60321>> ELSE IF i <= 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
Round(w, h, i) == <<Add(Add(Add(Rotl5(h[1]), F(i, h[2], h[3], h[4])), Add(h[5], K(i))), w[i]), h[1], Rotl30(h[2]), h[3], h[4]>>
Block(h, b) ==
    LET w == Extend([i \in 1..16 |-> Word(b, 4 * i - 3)])
        r == FoldLeft(LAMBDA x, i : Round(w, x, i), h, [k \in 1..80 |-> k]) IN
    <<Add(h[1], r[1]), Add(h[2], r[2]), Add(h[3], r[3]), Add(h[4], r[4]), Add(h[5], r[5])>>
H0 == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
Bytes4(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Sha1(m) == LET p == Padded(m)
               h == FoldLeft(LAMBDA x, k : Block(x, SubSeq(p, 64 * k - 63, 64 * k)), H0, [k \in 1..(Len(p) \div 64) |-> k]) IN
           Bytes4(h[1]) \o Bytes4(h[2]) \o Bytes4(h[3]) \o Bytes4(h[4]) \o Bytes4(h[5])
=============================================================================
