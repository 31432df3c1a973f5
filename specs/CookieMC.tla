------------------------------ MODULE CookieMC ------------------------------
(* The library keeps a map of values and a map of queued lines; the client only *)
(* sees the history of calls: the last call per name decides what it is told.   *)
EXTENDS CookieOps
CONSTANTS Limit, Bug
VARIABLES hist, rep
Names == {<<97>>, <<65>>, <<98>>}
Slots == {"p", "q"}
New == [jar |-> {}, queue |-> {}]
N(n) == IF Bug = "rawname" THEN n ELSE Lower(n)
Init == hist = [s \in Slots |-> <<>>] /\ rep = [s \in Slots |-> New]
SetIt(s, n, v, a) == /\ hist' = [hist EXCEPT ![s] = Append(@, [k |-> "set", n |-> Lower(n), v |-> v, a |-> a])]
                     /\ rep' = [rep EXCEPT ![s] = [jar |-> Put(@.jar, [n |-> N(n), v |-> v]),
                                                  queue |-> IF Bug = "delwins" /\ Known(@.queue, N(n)) /\ Of(@.queue, N(n)).k = "del" THEN @.queue
                                                            ELSE Put(@.queue, [n |-> N(n), k |-> "set", v |-> v, a |-> IF Bug = "attrskept" /\ Known(@.queue, N(n)) THEN Of(@.queue, N(n)).a ELSE a])]]
DelIt(s, n) == /\ hist' = [hist EXCEPT ![s] = Append(@, [k |-> "del", n |-> Lower(n), v |-> <<>>, a |-> 0])]
               /\ rep' = IF ~Known(rep[s].jar, N(n)) THEN rep
                         ELSE [rep EXCEPT ![s] = [jar |-> Drop(@.jar, N(n)),
                                                  queue |-> IF Bug = "unqueue" THEN Drop(@.queue, N(n)) ELSE Put(@.queue, [n |-> N(n), k |-> "del", v |-> <<>>, a |-> 0])]]
Copy(s, o) == hist' = [hist EXCEPT ![s] = hist[o]]
              /\ rep' = [rep EXCEPT ![s] = IF Bug = "copyjar" THEN [rep[o] EXCEPT !.queue = {}] ELSE rep[o]]
Next == \/ \E s \in Slots, n \in Names : Len(hist[s]) < Limit /\ (DelIt(s, n) \/ \E v \in {<<120>>}, a \in {0, 1} : SetIt(s, n, v, a))
        \/ Copy("p", "q") \/ Copy("q", "p")
Spec == Init /\ [][Next]_<<hist, rep>>
Last(h, n) == LET P == SelectSeq(h, LAMBDA x : x.n = Lower(n)) IN IF P = <<>> THEN [k |-> "none", n |-> n, v |-> <<>>, a |-> 0] ELSE P[Len(P)]
Told(s) == \A n \in {<<97>>, <<98>>} : LET x == Last(hist[s], n) q == rep[s].queue IN
    CASE x.k = "set" -> x \in {[k |-> y.k, n |-> y.n, v |-> y.v, a |-> y.a] : y \in q}
      [] x.k = "del" -> (\E i \in DOMAIN hist[s] : hist[s][i].n = n /\ hist[s][i].k = "set") => (\E y \in q : y.n = n /\ y.k = "del")
      [] OTHER -> ~Known(q, n)
Read(s) == \A n \in Names : LET x == Last(hist[s], n) IN
    IF x.k = "set" THEN Known(rep[s].jar, N(n)) /\ Of(rep[s].jar, N(n)).v = x.v ELSE ~Known(rep[s].jar, N(n))
Same == \A s \in Slots : Told(s) /\ Read(s)
=============================================================================
