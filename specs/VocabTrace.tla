------------------------------ MODULE VocabTrace ------------------------------
(* Recorded calls of the HTTP vocabulary, judged one by one.                    *)
EXTENDS Vocab, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, done
Pairs(s) == {<<s[2 * i - 1], s[2 * i]>> : i \in 1..(Len(s) \div 2)}
SamePairs(a, b) == Len(a) = Len(b) /\ Pairs(a) = Pairs(b)
(* name=value parts of what setCookies was given; a cookie without a name is not one *)
RECURSIVE Entries(_)
Entries(a) == IF Len(a) < 2 THEN <<>> ELSE (IF a[1] = <<>> THEN <<>> ELSE <<IF a[2] = <<>> THEN a[1] ELSE a[1] \o <<61>> \o a[2]>>) \o Entries(SubSeq(a, 3, Len(a)))
StatusIs(c, text) == c.out.k = "s" /\ c.out.n = c.n /\ c.out.v = text /\ (c.n >= 100 => c.out.m = Type(c.n))
Right(c) ==
    LET a == c.a o == c.out IN
    CASE c.op = "method" -> LET m == MethodOf(a[1]) IN IF m = 0 THEN o.k = "throw" ELSE o.k = "m" /\ o.v = Names[m] /\ o.n = m - 1
      [] c.op = "meq" -> o.k = (IF Upper(a[2]) = Names[MethodOf(a[1])] THEN "true" ELSE "false")
      [] c.op = "mdef" -> o.k = "v" /\ o.v = Names[1]
      [] c.op = "status" -> IF c.n \in Codes THEN StatusIs(c, Reasons[c.n]) ELSE o.k = "throw" \/ (c.n \in MayKnow /\ o.k = "s" /\ o.n = c.n /\ o.m = Type(c.n))
      [] c.op = "statust" -> StatusIs(c, a[1])
      [] c.op = "basic" -> LET b == Basic(a[1]) IN (b.is # "yes" /\ o.k = "none") \/ (b.is # "no" /\ o.k = "l" /\ (b.is = "yes" => o.l = b.c))
      [] c.op = "body" -> o.k = "v" /\ o.v = a[1]
      [] c.op = "resp" -> o.k = "r" /\ o.n = c.n /\ o.l[1] = a[1] /\ SamePairs(Tail(o.l), Tail(a))
      [] c.op = "reqs" -> /\ o.k = "r" /\ o.l[1] = a[1] /\ o.l[2] = Names[MethodOf(a[2])] /\ o.l[3] = a[3]
                          /\ SamePairs(SubSeq(o.l, 4, Len(o.l)), SubSeq(a, 4, Len(a))) /\ SamePairs(o.ck, c.ck)
      [] c.op = "setck" -> o.k = "l" /\ o.l = << <<122, 61, 48>> >> \o Entries(a)
      [] c.op = "mime" -> o.k = "v" /\ (IF Ext(a[1]) \in DOMAIN Media THEN o.v \in Media[Ext(a[1])] ELSE c.odd => o.v = Octets)
      [] c.op = "ext" -> o.k = "l" /\ (IF c.odd THEN o.l = <<Bin, Octets>> ELSE o.l[2] = a[1])
      [] OTHER -> FALSE
Init == t \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ Right(Cases[t]) /\ done' = TRUE /\ t' = t /\ PrintT("ACC " \o ToString(t))
=============================================================================
