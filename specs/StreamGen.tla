------------------------------ MODULE StreamGen ------------------------------
(* Calls on two compressors and two decompressors, in units of pieces: a walk    *)
(* generator for the life cycle.                                                *)
EXTENDS StreamLife
CONSTANT Pieces
VARIABLES st, last
S == {"p", "q"}
E(op, s, o, fin) == [op |-> op, s |-> s, o |-> o, fin |-> fin]
Init == st = [c |-> [s \in S |-> NewC], d |-> [s \in S |-> NewD]] /\ last = E("start", "p", "q", FALSE)
(* a piece of a stream counts 1, a stream has Pieces of them; the data counts the same *)
Ev(e) == [op |-> e.op, s |-> e.s, o |-> e.o, fin |-> e.fin, n |-> 1, got |-> 1, zlen |-> Pieces, dlen |-> Pieces, bad |-> FALSE, same |-> TRUE, r |-> "n"]
Do1(e) == st' = Do(st, Ev(e)) /\ last' = e
Next == \E s \in S : LET o == IF s = "p" THEN "q" ELSE "p" IN
    \/ st.c[s].at # "none" /\ ((st.c[s].fed < Pieces \/ st.c[s].at = "ended") /\ \E f \in BOOLEAN : Do1(E("cfeed", s, o, f)) \/ Do1(E("cend", s, o, FALSE)) \/ Do1(E("creset", s, o, FALSE)))
    \/ st.c[s].at = "none" /\ (Do1(E("cnew", s, o, FALSE)) \/ (st.c[o].at # "none" /\ Do1(E("cmove", s, o, FALSE))))
    \/ st.c[s].at # "none" /\ st.c[o].at # "none" /\ Do1(E("cmassign", s, o, FALSE))
    \/ st.d[s].at # "none" /\ (Do1(E("dfeed", s, o, FALSE)) \/ Do1(E("dreset", s, o, FALSE)))
    \/ st.d[s].at = "none" /\ (Do1(E("dnew", s, o, FALSE)) \/ (st.d[o].at # "none" /\ Do1(E("dmove", s, o, FALSE))))
    \/ st.d[s].at # "none" /\ st.d[o].at # "none" /\ Do1(E("dmassign", s, o, FALSE))
=============================================================================
