-------------------------------- MODULE Tar --------------------------------
(* Tar archives.  An archive is a sequence of blocks [i, t, z]: the bytes of *)
(* the block (or <<>> where only the token is given), a token of its content *)
(* and whether it is all zeros.  Parse gives the regular files it holds, or  *)
(* says that it is cut short or damaged.                                     *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets
BlockSize == 512
Ceil(n) == (n + BlockSize - 1) \div BlockSize
FieldOf(b, off, len) == SubSeq(b.i, off + 1, off + len)
SumOf(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
HeaderSum(b) == SumOf(b.i) - SumOf(FieldOf(b, 148, 8)) + 8 * 32
CStr(s) == LET z == {k \in DOMAIN s : s[k] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE k \in z : \A j \in z : k <= j) - 1)
Strip(s) == LET z == {k \in DOMAIN s : s[k] # 32} IN IF z = {} THEN <<>> ELSE SubSeq(s, CHOOSE k \in z : \A j \in z : k <= j, Len(s))
Digits(s) == LET z == {k \in DOMAIN s : s[k] \notin 48..55} IN IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE k \in z : \A j \in z : k <= j) - 1)
Oct(f) == LET d == Digits(Strip(f)) IN IF d = <<>> THEN -1 ELSE FoldLeft(LAMBDA a, x : 8 * a + (x - 48), 0, d)
(* strictly terminated octal, as a writer must produce it *)
OctStrict(f) == LET d == Digits(f) IN Len(d) >= 1 /\ Len(d) < Len(f) /\ \A k \in (Len(d) + 1)..Len(f) : f[k] \in {0, 32}
Ustar == <<117, 115, 116, 97, 114, 0>>
HdrSize(b) == Oct(FieldOf(b, 124, 12))
HdrTime(b) == Oct(FieldOf(b, 136, 12))
HdrName(b) == LET n == CStr(FieldOf(b, 0, 100)) p == CStr(FieldOf(b, 345, 155))
              IN IF p = <<>> THEN n ELSE p \o <<47>> \o n
HdrType(b) == b.i[157]
IsHeader(b) == Len(b.i) = BlockSize /\ FieldOf(b, 257, 6) = Ustar /\ Oct(FieldOf(b, 148, 8)) = HeaderSum(b)
               /\ HdrSize(b) >= 0 /\ HdrTime(b) >= 0
Strictly(b) == OctStrict(FieldOf(b, 124, 12)) /\ OctStrict(FieldOf(b, 136, 12)) /\ OctStrict(FieldOf(b, 148, 8))
Bad == [st |-> "bad", files |-> <<>>, end |-> 0, strict |-> FALSE]
NoLong == <<0>>
RECURSIVE Rd(_, _, _, _, _)
Rd(bs, k, long, files, strict) ==
    IF k > Len(bs) THEN Bad
    ELSE LET b == bs[k] IN
    IF b.z THEN [st |-> "ok", files |-> files, end |-> k, strict |-> strict /\ long = NoLong]
    ELSE IF ~IsHeader(b) THEN Bad
    ELSE LET sz == HdrSize(b) nb == Ceil(sz) ok == strict /\ Strictly(b) IN
    IF k + nb > Len(bs) \/ \E j \in (k + 1)..(k + nb) : bs[j].part THEN Bad
    ELSE CASE HdrType(b) = 76 ->
                 LET data == SubSeq(FoldLeft(LAMBDA a, j : a \o bs[j].i, <<>>, [x \in 1..nb |-> k + x]), 1, sz)
                 IN Rd(bs, k + nb + 1, CStr(data), files, ok /\ sz > 0 /\ data[sz] = 0)
           [] HdrType(b) \in {48, 0} ->
                 Rd(bs, k + nb + 1, NoLong,
                    Append(files, [name |-> IF long = NoLong THEN HdrName(b) ELSE long, n |-> sz, mo |-> HdrTime(b),
                                   c |-> [x \in 1..nb |-> bs[k + x].t]]), ok)
           [] OTHER -> Rd(bs, k + nb + 1, long, files, ok)
Parse(bs) == Rd(bs, 1, NoLong, <<>>, TRUE)
(* exactly what a writer must produce: everything terminated, ended by two zero blocks, nothing after *)
WellFormed(bs) == LET r == Parse(bs) IN r.st = "ok" /\ r.strict /\ r.end + 1 = Len(bs) /\ bs[r.end + 1].z /\ ~bs[r.end + 1].part
=============================================================================
