------------------------------- MODULE StaticMC -------------------------------
(* Resolving a path byte by byte, as a server would do it before it asks the   *)
(* file system: a stack of names, the name being read.  Compared with RFC 3986 *)
(* 5.2.4 (the input buffer algorithm, written out below) and with StaticOps.   *)
EXTENDS StaticOps
CONSTANTS Chars, Max, Bug
VARIABLES in, stack, cur
vars == <<in, stack, cur>>
Init == in = <<47>> /\ stack = <<>> /\ cur = <<>>
Close(st, c) == IF c = Dot THEN st
                ELSE IF c = DotDot THEN (IF st = <<>> THEN st ELSE Front(st))
                ELSE IF c = <<>> /\ Bug # "empty" THEN st ELSE Append(st, c)
Feed(c) == /\ in' = Append(in, c)
           /\ IF c = 47 \/ (c = 92 /\ Bug # "backslash")
              THEN stack' = Close(stack, cur) /\ cur' = <<>>
              ELSE cur' = Append(cur, c) /\ stack' = stack
Next == Len(in) < Max /\ \E c \in Chars : Feed(c)
Spec == Init /\ [][Next]_vars
End == IF Bug = "last" THEN (IF cur = <<>> THEN stack ELSE Append(stack, cur)) ELSE Close(stack, cur)
(* what is handed to the file system never has a name that moves it *)
Inside == \A i \in DOMAIN End : End[i] \notin {Dot, DotDot, <<>>}
Same == End = Resolve(in).segs
(* RFC 3986 5.2.4 on the slashed path *)
RECURSIVE Rfc(_, _)
DropLast(o) == LET K == {k \in DOMAIN o : o[k] = 47} IN IF K = {} THEN <<>> ELSE SubSeq(o, 1, (CHOOSE k \in K : \A j \in K : j <= k) - 1)
Rfc(b, o) ==
    IF b = <<>> THEN o
    ELSE IF StartsWith(b, <<47, 46, 47>>) THEN Rfc(From(b, 3), o)
    ELSE IF b = <<47, 46>> THEN Rfc(<<47>>, o)
    ELSE IF StartsWith(b, <<47, 46, 46, 47>>) THEN Rfc(From(b, 4), DropLast(o))
    ELSE IF b = <<47, 46, 46>> THEN Rfc(<<47>>, DropLast(o))
    ELSE LET k == Find(b, {47}, 2) e == IF k = 0 THEN Len(b) ELSE k - 1 IN Rfc(From(b, e + 1), o \o Sub(b, 1, e))
SameRfc == NonEmpty(Split(Rfc(Slashed(in), <<>>), 47)) = ResolveKeep(in).segs
(* resolving is idempotent and the two readings agree when there are no empty segments *)
Joined(segs) == Cat([i \in DOMAIN segs |-> <<47>> \o segs[i]])
Idem == LET r == Resolve(in).segs IN r # <<>> => Resolve(Joined(r)).segs = r
Agree == ~Has(Slashed(in), <<47, 47>>) => Resolve(in) = ResolveKeep(in)
=============================================================================
