------------------------------- MODULE LogMC -------------------------------
(* Connections are served by threads of their own; each writes its lines, piece *)
(* by piece, into one log of each kind. Whatever the threads do, the log is made*)
(* of whole lines, and those about a connection are the ones it should have.    *)
EXTENDS Logs, TLC
CONSTANTS N, Steps, Bug
VARIABLES o, cs, pc, pend, out, err, lock, hist
vars == <<o, cs, pc, pend, out, err, lock, hist>>
W == 1..N
Kinds == {"plain", "crash", "refused", "sse", "ssecrash", "lost"}
Conn(i) == [host |-> i, port |-> i, cid |-> i + 10]
Init == /\ o \in [t : BOOLEAN, r : BOOLEAN] /\ cs = [i \in W |-> Conn(i)]
        /\ pc = [i \in W |-> "start"] /\ pend = [i \in W |-> <<>>] /\ out = <<>> /\ err = <<>> /\ lock = 0
        /\ hist = [i \in W |-> [steps |-> <<>>, fin |-> "open"]]
(* what remains to be written: pairs of the log and a piece of a line *)
Pieces(w, s) == [j \in 1..(2 * Len(s)) |-> [w |-> w, line |-> s[((j + 1) \div 2)], part |-> IF j % 2 = 1 THEN 1 ELSE 2]]
O(s) == Pieces("out", s)
E(s) == Pieces("err", s)
Start(i) == /\ pc[i] = "start" /\ pc' = [pc EXCEPT ![i] = "idle"]
            /\ pend' = [pend EXCEPT ![i] = O(BeginOut(cs[i], o))]
            /\ UNCHANGED <<o, cs, out, err, lock, hist>>
Step(i, k, d) ==
    LET s == [rid |-> (100 * i) + Len(hist[i].steps), m |-> "GET", p |-> "/", k |-> k, code |-> IF k = "plain" THEN "200" ELSE "500"]
        last == k \in {"refused", "sse", "ssecrash", "lost"}
        ol == CHOOSE x \in StepOut(cs[i], o, s) : (k = "lost" /\ o.r) => (Len(x) = IF d THEN 1 ELSE 0)
        el == CHOOSE x \in StepErr(cs[i], o, s) : TRUE
    IN /\ pc[i] = "idle" /\ pend[i] = <<>> /\ Len(hist[i].steps) < Steps /\ (d => k = "lost")
       /\ hist' = [hist EXCEPT ![i].steps = Append(@, s)]
       /\ pend' = [pend EXCEPT ![i] = E(el) \o (IF Bug = "crashsilent" /\ k = "crash" THEN <<>> ELSE O(ol))]
       /\ pc' = [pc EXCEPT ![i] = IF last THEN (IF k = "lost" THEN "lost" ELSE "last") ELSE "idle"]
       /\ UNCHANGED <<o, cs, out, err, lock>>
Fin(i, f) == /\ pc[i] \in {"idle", "last", "lost"} /\ pend[i] = <<>> /\ (f = "error" => pc[i] # "last")
             /\ hist' = [hist EXCEPT ![i].fin = f] /\ pc' = [pc EXCEPT ![i] = "over"]
             /\ pend' = [pend EXCEPT ![i] = IF f = "error" THEN E(EndErr(cs[i], o)) \o (IF Bug = "both" THEN O(EndOut(cs[i], o)) ELSE <<>>)
                                            ELSE O(EndOut(cs[i], o))]
             /\ UNCHANGED <<o, cs, out, err, lock>>
(* the lock is taken for a line and given back after its last piece *)
Write(i) == /\ pend[i] # <<>>
            /\ LET x == Head(pend[i]) IN
               /\ IF Bug = "torn" THEN lock' = lock ELSE lock \in {0, i} /\ lock' = (IF x.part = 2 THEN 0 ELSE i)
               /\ out' = (IF x.w = "out" THEN Append(out, x) ELSE out)
               /\ err' = (IF x.w = "err" THEN Append(err, x) ELSE err)
            /\ pend' = [pend EXCEPT ![i] = Tail(@)]
            /\ UNCHANGED <<o, cs, pc, hist>>
Next == \E i \in W : Start(i) \/ Write(i) \/ (\E k \in Kinds, d \in BOOLEAN : Step(i, k, d)) \/ (\E f \in {"closed", "error"} : Fin(i, f))
Spec == Init /\ [][Next]_vars
Whole(s) == \A j \in DOMAIN s : IF s[j].part = 1 THEN j = Len(s) \/ (s[j + 1].part = 2 /\ s[j + 1].line = s[j].line)
                                ELSE j > 1 /\ s[j - 1].part = 1
WholeLines == Whole(out) /\ Whole(err)
Mine(i, ln) == IF ln.k \in {"created", "closed", "terminated"} THEN ln.cid = cs[i].cid ELSE ln.rid \div 100 = i
Lines(s, i) == LET q == SelectSeq(s, LAMBDA x : x.part = 2 /\ Mine(i, x.line)) IN [j \in DOMAIN q |-> q[j].line]
RECURSIVE Cat(_, _, _, _)
Cat(f, c, oo, ss) == IF ss = <<>> THEN {<<>>}
    ELSE {a \o b : a \in (IF f = "out" THEN StepOut(c, oo, Head(ss)) ELSE StepErr(c, oo, Head(ss))), b \in Cat(f, c, oo, Tail(ss))}
Told == \A i \in W : (pc[i] = "over" /\ pend[i] = <<>>) =>
    /\ Lines(out, i) \in {(BeginOut(cs[i], o) \o x) \o (IF hist[i].fin = "closed" THEN EndOut(cs[i], o) ELSE <<>>) : x \in Cat("out", cs[i], o, hist[i].steps)}
    /\ Lines(err, i) \in {x \o (IF hist[i].fin = "error" THEN EndErr(cs[i], o) ELSE <<>>) : x \in Cat("err", cs[i], o, hist[i].steps)}
Quiet == (~o.t /\ ~o.r) => out = <<>> /\ err = <<>>
=============================================================================
