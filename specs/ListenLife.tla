----------------------------- MODULE ListenLife -----------------------------
(* Listening sockets and the clients that connect to them, call by call.       *)
(* ls: listeners, each on a port with the clients it has not handed out yet.   *)
EXTENDS Integers, Sequences, FiniteSets
NoL == [at |-> "none", port |-> 0, q |-> <<>>, rcv |-> 0, snd |-> 0]
Late == 10000
Slots == {"l", "m"}
On(st, p) == {s \in Slots : st[s].at = "open" /\ st[s].port = p}
(* what a handed out connection is like *)
Good(st, e, k) == e.r = "conn" /\ e.k = k /\ e.same /\ e.rcv = st[e.s].rcv /\ e.snd = st[e.s].snd /\ e.works
Ok(st, e) ==
    CASE e.op = "lopen" -> e.r = (IF On(st, e.n) = {} THEN "ok" ELSE "throw")
      [] e.op = "dial" -> IF On(st, e.n) = {} THEN e.r = "refused" ELSE e.r = "ok"
      [] e.op = "accept" ->
           IF st[e.s].at # "open" THEN e.r = "none"
           ELSE IF e.hit # "no" THEN e.r = "net" /\ e.rcv = e.want       \* the error code is in its place
           ELSE Good(st, e, Head(st[e.s].q)) /\ (e.t => e.ms * 10 >= st[e.s].rcv * 7 /\ e.ms <= st[e.s].rcv + Late)
      \* a client comes while an accept waits; the socket is stopped while it waits
      [] e.op = "baccept" -> Good(st, e, e.want) /\ e.ms <= Late
      [] e.op = "saccept" -> e.r = "none" /\ e.ms <= Late
      \* the socket is stopped while an accept is on its way, and another one is made; several threads accept at once
      [] e.op = "lsteal" -> e.r = "none" /\ e.same
      [] e.op = "crowd" -> e.r = "done" /\ e.same /\ e.ms <= Late
      [] e.op = "active" -> e.r = (IF st[e.s].at = "open" THEN "true" ELSE "false")
      [] e.op = "conf" -> e.same /\ e.rcv = st[e.s].rcv /\ e.snd = st[e.s].snd
      [] e.op = "fds" -> e.g = Cardinality({s \in Slots : st[s].at = "open"}) /\ e.bad = 0
      [] e.op \in {"stop", "ldrop", "lmove", "lassign"} -> e.r = "done"
      [] OTHER -> FALSE
Shut(x) == IF x.at = "none" THEN x ELSE [x EXCEPT !.at = "shut", !.q = <<>>]
Do(st, e) ==
    CASE e.op = "lopen" -> IF e.r = "ok" THEN [st EXCEPT ![e.s] = [at |-> "open", port |-> e.n, q |-> <<>>, rcv |-> e.rcv, snd |-> e.snd]] ELSE st
      [] e.op = "dial" -> IF e.r = "ok" THEN LET s == CHOOSE x \in On(st, e.n) : TRUE IN [st EXCEPT ![s].q = Append(@, e.k)] ELSE st
      [] e.op = "accept" -> IF e.r = "conn" THEN [st EXCEPT ![e.s].q = Tail(@)] ELSE st
      [] e.op \in {"stop", "saccept", "lsteal", "crowd"} -> [st EXCEPT ![e.s] = Shut(@)]
      [] e.op = "ldrop" -> [st EXCEPT ![e.s] = NoL]
      [] e.op \in {"lmove", "lassign"} -> IF e.s = e.o THEN st ELSE [st EXCEPT ![e.s] = st[e.o], ![e.o] = Shut(st[e.o])]
      [] OTHER -> st
=============================================================================
