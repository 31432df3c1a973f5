------------------------------ MODULE ListenGen ------------------------------
(* Every call in every state of two listening sockets and two ports.           *)
EXTENDS ListenLife
VARIABLES st, last
E(op, s, o, n) == [op |-> op, s |-> s, o |-> o, n |-> n]
Init == st = [s \in Slots |-> NoL] /\ last = E("start", "l", "l", 0)
Ev(e, r) == [op |-> e.op, s |-> e.s, o |-> e.o, n |-> e.n, r |-> r, k |-> 1, rcv |-> 0, snd |-> 0]
Do1(e, r) == st' = Do(st, Ev(e, r)) /\ last' = e
Next ==
    \/ \E n \in 1..2 : LET s == CHOOSE x \in Slots : TRUE IN Do1(E("dial", s, s, n), IF On(st, n) = {} THEN "refused" ELSE "ok") /\ \A x \in On(st, n) : Len(st[x].q) < 2
    \/ \E s \in Slots : LET o == IF s = "l" THEN "m" ELSE "l"  x == st[s]  C(op, r) == Do1(E(op, s, o, 0), r) IN
        \/ x.at = "none" /\ \E n \in 1..2 : Do1(E("lopen", s, o, n), IF On(st, n) = {} THEN "ok" ELSE "throw")
        \/ x.at # "none" /\ (C("active", "") \/ C("stop", "") \/ C("ldrop", ""))
        \/ x.at = "open" /\ Len(x.q) > 0 /\ C("accept", "conn")
        \/ x.at = "shut" /\ C("accept", "none")
        \/ x.at = "open" /\ Len(x.q) = 0 /\ (C("baccept", "conn") \/ C("saccept", "none"))
        \/ x.at = "open" /\ C("conf", "")
        \/ x.at # "none" /\ st[o].at = "none" /\ Do1(E("lmove", o, s, 0), "")
        \/ x.at # "none" /\ st[o].at # "none" /\ C("lassign", "")
        \/ x.at # "none" /\ Do1(E("lassign", s, s, 0), "")
(* a port is never listened on twice, and nobody waits at a closed one *)
OnePer == \A n \in 1..2 : Cardinality(On(st, n)) <= 1
NoneWait == \A s \in Slots : st[s].at # "open" => st[s].q = <<>>
=============================================================================
