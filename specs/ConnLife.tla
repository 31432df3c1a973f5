------------------------------ MODULE ConnLife ------------------------------
(* What the owner of TCP connection objects and the peers of its sockets see,  *)
(* call by call. Amounts are bytes, times are milliseconds.                    *)
EXTENDS Integers, Sequences, FiniteSets
(* a: sent by the peer, not read yet. fin: how the peer ended ("no", "eof",    *)
(* "rst"). c: ended by us. maybe: a write failed, what is left is not told.    *)
NewSock == [a |-> 0, fin |-> "no", c |-> FALSE, maybe |-> FALSE]
NoObj == [ex |-> FALSE, k |-> 0, ct |-> TRUE, td |-> TRUE, rcv |-> 0, snd |-> 0]
Late == 10000
InTime(ms, t) == ms * 10 >= t * 7 /\ ms <= t + Late
Sock(st, s) == st.sock[st.obj[s].k]
(* the outcomes of a read: what the result may be, and whether the connection goes on *)
Reads(st, e) ==
    LET o == st.obj[e.s]
        data == e.r = "data" /\ e.g >= 1 /\ e.g <= e.n /\ e.same
        reset == IF o.td THEN e.r \in {"throw", "net"} ELSE e.r = "empty" IN
    IF o.k = 0 THEN e.r \in {"throw", "net"}
    ELSE LET k == Sock(st, e.s) IN
         IF k.maybe THEN (e.r = "data" => (data /\ e.g <= k.a))
         ELSE IF e.hit = "err" THEN e.r = "net" /\ e.err = e.want
         ELSE IF e.hit = "reset" THEN reset
         ELSE IF k.fin = "rst" THEN reset \/ (data /\ e.g <= k.a)
         ELSE IF k.a > 0 THEN data /\ e.g <= k.a
         ELSE IF k.fin = "eof" THEN e.r = "empty"
         ELSE e.r = "empty" /\ InTime(e.ms, o.rcv)
Ends(st, e) == LET o == st.obj[e.s] IN
    /\ o.k # 0 /\ ~Sock(st, e.s).maybe /\ e.r # "data" /\ e.hit # "err"
    /\ (e.hit = "reset" \/ Sock(st, e.s).fin # "no" \/ o.ct)
Writes(st, e) ==
    LET o == st.obj[e.s] IN
    IF o.k = 0 THEN e.r = "throw"
    ELSE LET k == Sock(st, e.s) IN
         IF k.maybe THEN e.same
         ELSE IF e.hit # "no" THEN e.r = "throw" /\ e.same
         ELSE IF k.fin = "rst" THEN e.r = "throw"
         ELSE IF e.op = "wfull" THEN e.r = "throw" /\ InTime(e.ms, o.snd)      \* nobody reads
         ELSE e.r = "done" /\ e.g = e.n /\ e.same
Ok(st, e) ==
    CASE e.op = "conn" -> e.r = "ok" /\ e.same
      [] e.op = "read" -> Reads(st, e)
      [] e.op \in {"write", "wfull"} -> Writes(st, e)
      [] e.op = "open" -> (st.obj[e.s].k # 0 /\ Sock(st, e.s).maybe) \/ e.r = (IF st.obj[e.s].k # 0 THEN "true" ELSE "false")
      \* the peer of a socket has seen its end if, and only if, it was ended; nothing comes that was not written
      [] e.op = "look" -> e.g = 0 /\ e.same /\ (st.sock[e.k].maybe \/ st.sock[e.k].fin = "rst" \/ e.eof = st.sock[e.k].c)
      [] e.op = "info" -> e.same /\ e.rcv = st.obj[e.s].rcv /\ e.snd = st.obj[e.s].snd /\ e.ct = st.obj[e.s].ct /\ e.td = st.obj[e.s].td
      [] e.op = "fds" -> LET Open == {i \in DOMAIN st.sock : ~st.sock[i].c} IN
              e.g <= Cardinality(Open) /\ e.g >= Cardinality({i \in Open : ~st.sock[i].maybe}) /\ e.bad = 0
      [] e.op = "unblock" -> e.r \in {"empty", "throw", "net"} /\ e.ms <= Late
      [] e.op = "unblockw" -> e.r = "throw" /\ e.ms <= Late
      [] e.op = "duplex" -> e.r = "done" /\ e.ms * 2 <= e.want /\ e.g = 1000 /\ e.same
      [] e.op \in {"writers", "steal"} -> e.same
      [] e.op = "psend" -> e.r = "done" \/ st.sock[e.k].c
      [] e.op \in {"peof", "prst", "end", "ends", "drop", "move", "assign", "flags", "tmo"} -> e.r = "done"
      [] OTHER -> FALSE
Close(st, k) == IF k = 0 THEN st ELSE [st EXCEPT !.sock[k].c = TRUE]
Lose(st, s) == [Close(st, st.obj[s].k) EXCEPT !.obj[s].k = 0]
Do(st, e) ==
    CASE e.op = "conn" -> [st EXCEPT !.sock = Append(@, NewSock),
                                     !.obj[e.s] = [ex |-> TRUE, k |-> Len(st.sock) + 1, ct |-> e.ct, td |-> e.td, rcv |-> e.rcv, snd |-> e.snd]]
      [] e.op = "psend" -> [st EXCEPT !.sock[e.k].a = @ + e.n]
      [] e.op = "peof" -> [st EXCEPT !.sock[e.k].fin = "eof"]
      [] e.op = "prst" -> [st EXCEPT !.sock[e.k].fin = "rst"]
      [] e.op = "read" -> IF e.r = "data" THEN [st EXCEPT !.sock[st.obj[e.s].k].a = @ - e.g]
                          ELSE IF Ends(st, e) THEN Lose(st, e.s) ELSE st
      [] e.op \in {"write", "wfull"} -> IF e.r = "throw" /\ st.obj[e.s].k # 0 THEN [st EXCEPT !.sock[st.obj[e.s].k].maybe = TRUE] ELSE st
      [] e.op \in {"end", "ends", "unblock", "unblockw", "steal"} -> Lose(st, e.s)
      [] e.op = "drop" -> [Lose(st, e.s) EXCEPT !.obj[e.s] = NoObj]
      [] e.op = "move" -> [st EXCEPT !.obj[e.s] = st.obj[e.o], !.obj[e.o].k = 0]
      [] e.op = "assign" -> IF e.s = e.o THEN st
                            ELSE [Lose(st, e.s) EXCEPT !.obj[e.s] = st.obj[e.o], !.obj[e.o].k = 0]
      [] e.op = "flags" -> [st EXCEPT !.obj[e.s].ct = e.ct, !.obj[e.s].td = e.td]
      [] e.op = "tmo" -> [st EXCEPT !.obj[e.s].rcv = IF e.dir = "s" THEN @ ELSE e.n, !.obj[e.s].snd = IF e.dir = "r" THEN @ ELSE e.n]
      [] OTHER -> st
=============================================================================
