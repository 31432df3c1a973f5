------------------------------ MODULE SayTrace ------------------------------
(* Lines written through syncout, by one thread or by many.                     *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l
Ev == Traces[t][l]
(* items of a line that have something to say, with a space between; nothing said, nothing written *)
RECURSIVE Put(_, _)
Put(items, acc) == IF items = <<>> THEN acc
    ELSE Put(Tail(items), IF Head(items) = <<>> THEN acc ELSE IF acc = <<>> THEN Head(items) ELSE (acc \o <<32>>) \o Head(items))
LineOf(items) == LET x == Put(items, <<>>) IN IF x = <<>> THEN <<>> ELSE Append(x, 10)
(* chorus: every thread i says lines 0..n-1, those with (j + i) % 3 = 2 on the other stream *)
Part(i, n, w) == SelectSeq([j \in 1..n |-> j - 1], LAMBDA j : ((j + i) % 3 = 2) = (w = "err"))
Said(s, i) == LET q == SelectSeq(s, LAMBDA x : x[1] = i) IN [j \in DOMAIN q |-> q[j][2]]
(* <<-1, 0>> stands for what is not a line anybody said: no thread has that number *)
ChorusOk(e) == /\ \A i \in 0..(e.th - 1) : Said(e.out, i) = Part(i, e.n, "out") /\ Said(e.err, i) = Part(i, e.n, "err")
               /\ Len(e.out) + Len(e.err) = e.th * e.n
Ok(e) == CASE e.op = "say" -> e.r = "l" /\ e.out = LineOf(e.items) /\ e.err = <<>>
           [] e.op = "cry" -> e.r = "l" /\ e.err = LineOf(e.items) /\ e.out = <<>>
           [] e.op = "chorus" -> e.r = "l" /\ ChorusOk(e)
           [] OTHER -> FALSE
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t])
        /\ (IF Explain /\ Ev.op # "chorus" THEN PrintT("EXPECT " \o ToString(LineOf(Ev.items))) ELSE TRUE)
        /\ Ok(Ev) /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t]) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
=============================================================================
