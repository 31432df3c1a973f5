------------------------------- MODULE SayMC -------------------------------
(* Threads that say lines on two streams, which are written piece by piece and  *)
(* kept in a buffer until there is enough: whoever writes must keep the others  *)
(* out until the line has ended.                                                *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, Lines, Pieces, Room, Bug
VARIABLES said, at, lock, buf, file
vars == <<said, at, lock, buf, file>>
W == 1..N
Streams == {"out", "err"}
On(i, j) == IF (i + j) % 3 = 2 THEN "err" ELSE "out"
(* said[i]: lines that are done; at[i]: pieces of the next one that are; lock: one for all, or (Bug = "each") one per thread: none *)
Init == said = [i \in W |-> 0] /\ at = [i \in W |-> 0] /\ lock = 0 /\ buf = [s \in Streams |-> <<>>] /\ file = [s \in Streams |-> <<>>]
Free(i) == CASE Bug = "nolock" -> TRUE [] Bug = "early" -> (at[i] > 0 \/ lock \in {0, i}) [] OTHER -> lock \in {0, i}
Say(i) == /\ said[i] < Lines /\ Free(i)
          /\ LET s == On(i, said[i])
                 x == <<i, said[i], at[i] + 1>>
                 b == Append(buf[s], x)
                 full == Len(b) >= Room
                 ends == at[i] + 1 = Pieces
             IN /\ file' = [file EXCEPT ![s] = IF full THEN @ \o b ELSE @] /\ buf' = [buf EXCEPT ![s] = IF full THEN <<>> ELSE b]
                /\ said' = [said EXCEPT ![i] = IF ends THEN @ + 1 ELSE @] /\ at' = [at EXCEPT ![i] = IF ends THEN 0 ELSE @ + 1]
                /\ lock' = (IF ends \/ Bug = "early" THEN 0 ELSE i)
Next == \E i \in W : Say(i)
Spec == Init /\ [][Next]_vars
All(s) == file[s] \o buf[s]
Starts(q) == {k \in DOMAIN q : q[k][3] = 1}
Whole == \A s \in Streams : LET q == All(s) IN
    \A k \in DOMAIN q : q[k][3] > 1 => k > 1 /\ q[k - 1] = <<q[k][1], q[k][2], q[k][3] - 1>>
InOrder == \A s \in Streams : LET q == All(s) IN \A j, k \in DOMAIN q : (j < k /\ q[j][1] = q[k][1]) => q[j][2] <= q[k][2]
Complete == (\A i \in W : said[i] = Lines) => Len(All("out")) + Len(All("err")) = (N * Lines) * Pieces
=============================================================================
