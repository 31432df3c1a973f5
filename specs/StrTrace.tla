------------------------------- MODULE StrTrace -------------------------------
(* Recorded calls of the string helpers, judged one by one.                     *)
EXTENDS StrOps, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, done
Gives(c, v) == c.out.k = "v" /\ c.out.v = v
Says(c, b) == c.out.k = (IF b THEN "true" ELSE "false")
Right(c) ==
    LET a == c.a IN
    CASE c.op = "lower" -> Gives(c, Lower(a[1]))
      [] c.op = "upper" -> Gives(c, Upper(a[1]))
      [] c.op = "title" -> Gives(c, Title(a[1]))
      [] c.op = "trim" -> Gives(c, Trim(a[1]))
      \* what replacing nothing means is open, but it ends
      [] c.op = "repl" -> IF a[2] = <<>> THEN c.out.k = "v" ELSE Gives(c, Swap(a[1], a[2], a[3]))
      [] c.op = "replall" -> IF a[2] = <<>> THEN c.out.k = "v" ELSE Gives(c, SwapAll(a[1], a[2], a[3]))
      [] c.op = "split" -> c.out.k = "l" /\ c.out.l = SplitBy(a[1], a[2])
      \* leading pieces with nothing in them may go without a separator
      [] c.op = "join" -> LET ps == Tail(a) IN
            \/ Gives(c, Glue(ps, a[1]))
            \/ \E k \in 1..Len(ps) : (\A j \in 1..k : ps[j] = <<>>) /\ Gives(c, Glue(SubSeq(ps, k + 1, Len(ps)), a[1]))
      [] c.op = "incl" -> Says(c, Occurs(a[1], a[2]))
      [] c.op = "inclany" -> Says(c, \E i \in 2..Len(a) : Occurs(a[1], a[i]))
      [] c.op = "starts" -> Says(c, Starts(a[1], a[2]))
      [] c.op = "ends" -> Says(c, EndsWith(a[1], a[2]))
      [] OTHER -> FALSE
Init == t \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ Right(Cases[t]) /\ done' = TRUE /\ t' = t /\ PrintT("ACC " \o ToString(t))
=============================================================================
