------------------------------- MODULE ConnGen -------------------------------
(* Calls on two connection objects and what their peers do: a walk generator   *)
(* for the life cycle, with sockets forgotten once nobody holds them.          *)
EXTENDS Integers, Sequences
CONSTANT Deep
Modes == IF Deep THEN BOOLEAN \X BOOLEAN ELSE {<<TRUE, TRUE>>, <<FALSE, FALSE>>}
VARIABLES ob, last
S == {"p", "q"}
None == [at |-> "none", a |-> 0, fin |-> "no", ct |-> TRUE, td |-> TRUE]
E(op, s, o, ct, td) == [op |-> op, s |-> s, o |-> o, ct |-> ct, td |-> td]
E0(op, s) == E(op, s, s, TRUE, TRUE)
Init == ob = [s \in S |-> None] /\ last = E0("start", "p")
Set(s, x, e) == ob' = [ob EXCEPT ![s] = x] /\ last' = e
Shut(x) == [x EXCEPT !.at = "shut", !.a = 0, !.fin = "no"]
Next == \E s \in S : LET x == ob[s]  o == IF s = "p" THEN "q" ELSE "p" IN
    \/ x.at = "none" /\ \E m \in Modes : Set(s, [None EXCEPT !.at = "open", !.ct = m[1], !.td = m[2]], E("conn", s, s, m[1], m[2]))
    \/ x.at = "open" /\ x.fin = "no" /\ x.a < 2 /\ Set(s, [x EXCEPT !.a = @ + 1], E0("psend", s))
    \/ x.at = "open" /\ x.fin = "no" /\ \E f \in {"eof", "rst"} : Set(s, [x EXCEPT !.fin = f, !.a = IF f = "rst" THEN 0 ELSE @], E0(IF f = "eof" THEN "peof" ELSE "prst", s))
    \/ x.at # "none" /\ LET e == E0("read", s) IN
         IF x.at = "shut" THEN Set(s, x, e)
         ELSE IF x.a > 0 THEN Set(s, [x EXCEPT !.a = @ - 1], e)
         ELSE IF x.fin # "no" \/ x.ct THEN Set(s, Shut(x), e) ELSE Set(s, x, e)
    \/ x.at # "none" /\ x.fin # "rst" /\ Set(s, x, E0("write", s))
    \/ x.at # "none" /\ \E op \in {"open", "look"} : Set(s, x, E0(op, s))
    \/ x.at = "open" /\ Set(s, x, E0("info", s))
    \/ x.at # "none" /\ Set(s, Shut(x), E0("end", s))
    \/ x.at # "none" /\ Set(s, None, E0("drop", s))
    \/ x.at # "none" /\ ob[o].at = "none" /\ ob' = [ob EXCEPT ![o] = x, ![s] = Shut(x)] /\ last' = E("move", o, s, TRUE, TRUE)
    \/ x.at # "none" /\ ob[o].at # "none" /\ ob' = [ob EXCEPT ![s] = ob[o], ![o] = Shut(ob[o])] /\ last' = E("assign", s, o, TRUE, TRUE)
    \/ x.at # "none" /\ Set(s, x, E("assign", s, s, TRUE, TRUE))
=============================================================================
