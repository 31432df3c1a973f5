------------------------------- MODULE WsConn -------------------------------
(* A websocket session: the client, the reader thread that assembles frames, *)
(* queues messages and answers control frames, and the application thread    *)
(* that takes messages, sends its own and may close or leave.  Every frame   *)
(* that goes out is written in two steps, so that a missing lock shows.      *)
EXTENDS WsFrames
CONSTANTS N, Kinds, Ops, Bug, MaxSend, Gone, Lazy
VARIABLES frames, sent, sock, buf, cur, open, queue, got, rpc, apc, lock, stopped, wire, gone, failed, nsend, last
vars == <<frames, sent, sock, buf, cur, open, queue, got, rpc, apc, lock, stopped, wire, gone, failed, nsend, last>>
F(fin, op, masked, len) == [fin |-> fin, op |-> op, masked |-> masked, len |-> len, hlen |-> 1, tok |-> "x"]
Frame(k) == CASE k = "text" -> F(TRUE, OpText, TRUE, 1) [] k = "textpart" -> F(FALSE, OpText, TRUE, 1)
              [] k = "binpart" -> F(FALSE, OpBin, TRUE, 1) [] k = "cont" -> F(FALSE, OpCont, TRUE, 1)
              [] k = "last" -> F(TRUE, OpCont, TRUE, 1) [] k = "ping" -> F(TRUE, OpPing, TRUE, 1)
              [] k = "pong" -> F(TRUE, OpPong, TRUE, 0) [] k = "close" -> F(TRUE, OpClose, TRUE, 0)
              [] k = "bad" -> F(TRUE, 3, TRUE, 0) [] k = "unmasked" -> F(TRUE, OpText, FALSE, 1)
              [] k = "large" -> F(TRUE, OpText, TRUE, 9)
Max == 4
(* a client that keeps to the rules of fragmentation, except for the violations above *)
RECURSIVE Legal(_, _, _)
Legal(ks, i, o) == i > Len(ks) \/
    LET f == Frame(ks[i]) IN
      /\ (f.op \in {OpText, OpBin} /\ f.len <= Max /\ f.masked => o = "none")
      /\ Legal(ks, i + 1, IF Faults(o, f, Max) # {} THEN o ELSE After(o, f))
Fs == [i \in 1..Len(frames) |-> Frame(frames[i])]
Size(i) == Fs[i].hlen + Fs[i].len
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + Size(i)
All == Sum(Len(frames))
M == Meaning(Fs, 1, "none", 0, Max)
Msgs == Kind(M, "msg")
Init == /\ frames \in {ks \in [1..N -> Kinds] : Legal(ks, 1, "none")}
        /\ sent = 0 /\ sock = 0 /\ buf = 0 /\ cur = 1 /\ open = "none" /\ queue = <<>> /\ got = <<>>
        /\ rpc = "look" /\ apc = "run" /\ lock = "free" /\ stopped = FALSE /\ wire = <<>> /\ gone = FALSE
        /\ failed = FALSE /\ nsend = 0 /\ last = 0
Closed == \E i \in DOMAIN wire : wire[i] = <<"close", 2>>
Send == /\ sent < All /\ ~gone /\ ~Closed
        /\ (Lazy => sock = 0 /\ rpc = "read" /\ apc = "wait" /\ queue = <<>>)
        /\ \E n \in 1..(All - sent) : sent' = sent + n /\ sock' = sock + n /\ last' = n
        /\ UNCHANGED <<frames, buf, cur, open, queue, got, rpc, apc, lock, stopped, wire, gone, failed, nsend>>
Leave == /\ Gone /\ ~gone /\ gone' = TRUE /\ last' = 0
         /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, rpc, apc, lock, stopped, wire, failed, nsend>>
(* --- reader *)
Have == cur <= N /\ buf >= Size(cur) + (IF Bug = "waitmore" THEN 1 ELSE 0)
HeadHere == cur <= N /\ buf >= 1
Look == /\ rpc = "look"
        /\ rpc' = (IF stopped THEN "done"
                   ELSE IF Have \/ (HeadHere /\ 1009 \in Faults(open, Fs[cur], Max)) THEN "take" ELSE "read")
        /\ last' = 0
        /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, apc, lock, stopped, wire, gone, failed, nsend>>
Read == /\ rpc = "read"
        /\ \/ sock > 0 /\ buf' = buf + sock /\ sock' = 0 /\ rpc' = "look"
           \/ sock = 0 /\ gone /\ rpc' = "done" /\ UNCHANGED <<buf, sock>>
           \/ sock = 0 /\ stopped /\ rpc' = "done" /\ UNCHANGED <<buf, sock>>
        /\ last' = 0
        /\ UNCHANGED <<frames, sent, cur, open, queue, got, apc, lock, stopped, wire, gone, failed, nsend>>
Take == /\ rpc = "take"
        /\ LET f == Fs[cur] e == Effect(open, f, Max) IN
           /\ CASE e.k = "msg" -> /\ queue' = Append(queue, [partial |-> IF Bug = "partial" THEN f.op = OpCont ELSE e.partial,
                                                             bin |-> e.bin])
                                  /\ rpc' = "look"
                [] e.k = "pong" -> rpc' = "pong1" /\ UNCHANGED queue
                [] e.k = "none" -> rpc' = "look" /\ UNCHANGED queue
                [] e.k = "close" -> rpc' = "close1" /\ UNCHANGED queue
                [] OTHER -> rpc' = "fail1" /\ UNCHANGED queue
           /\ open' = (IF e.k \in {"fault", "close"} THEN open
                       ELSE IF Bug = "ctxreset" /\ f.op \notin Data THEN "none" ELSE After(open, f))
           /\ buf' = (IF e.k = "fault" THEN buf ELSE buf - Size(cur))
           /\ cur' = cur + 1
        /\ last' = 0
        /\ UNCHANGED <<frames, sent, sock, got, apc, lock, stopped, wire, gone, failed, nsend>>
Free(me) == Bug = "nolock" \/ lock = "free"
(* first half of a frame: under the lock, unless the session has been closed *)
Out1(me, what, at, next, skip) ==
    /\ Free(me)
    /\ IF stopped /\ ~(Bug = "nocheck" /\ what = "pong")
       THEN at = skip /\ UNCHANGED <<wire, lock, stopped>>
       ELSE /\ wire' = Append(wire, <<what, 1>>) /\ lock' = me
            /\ stopped' = (stopped \/ what = "close") /\ at = next
Out2(me, what) == wire' = Append(wire, <<what, 2>>) /\ lock' = "free"
Reply1 == /\ rpc \in {"pong1", "close1", "fail1"}
          /\ Out1("reader", IF rpc = "pong1" THEN "pong" ELSE "close", rpc',
                  CASE rpc = "pong1" -> "pong2" [] rpc = "close1" -> "close2" [] OTHER -> "fail2",
                  IF rpc = "fail1" THEN "failed" ELSE "done")
          /\ last' = 0
          /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, apc, gone, failed, nsend>>
Reply2 == /\ rpc \in {"pong2", "close2", "fail2"}
          /\ Out2("reader", IF rpc = "pong2" THEN "pong" ELSE "close")
          /\ rpc' = (CASE rpc = "pong2" -> "look" [] rpc = "close2" -> "done" [] OTHER -> "failed")
          /\ last' = 0
          /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, apc, stopped, gone, failed, nsend>>
(* --- application *)
AppSend1 == /\ apc = "run" /\ "send" \in Ops /\ nsend < MaxSend
            /\ nsend' = nsend + 1 /\ Out1("app", "data", apc', "send2", "run") /\ last' = 0
            /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, rpc, gone, failed>>
AppSend2 == /\ apc = "send2" /\ Out2("app", "data") /\ apc' = "run" /\ last' = 0
            /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, rpc, stopped, gone, failed, nsend>>
AppClose1 == /\ \/ apc = "run" /\ "close" \in Ops
                \/ apc = "leaving"
             /\ (IF gone /\ apc = "leaving" THEN apc' = "left" /\ UNCHANGED <<wire, lock, stopped>>
                 ELSE Out1("app", "close", apc', IF apc = "run" THEN "close2" ELSE "leave2", IF apc = "run" THEN "run" ELSE "left"))
             /\ last' = 0
             /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, rpc, gone, failed, nsend>>
AppClose2 == /\ apc \in {"close2", "leave2"} /\ Out2("app", "close") /\ apc' = (IF apc = "close2" THEN "run" ELSE "left")
             /\ last' = 0
             /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, rpc, stopped, gone, failed, nsend>>
AppAwait == /\ apc = "run" /\ apc' = "wait" /\ last' = 0
            /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, rpc, lock, stopped, wire, gone, failed, nsend>>
ReaderOver == rpc \in {"done", "failed"}
(* messages go first; the end of the session is reported when none is left *)
AppTake == /\ apc = "wait" /\ queue # <<>> /\ ~(Bug = "getfirst" /\ ReaderOver /\ rpc = "failed")
           /\ got' = Append(got, Head(queue)) /\ queue' = Tail(queue) /\ apc' = "run" /\ last' = 0
           /\ UNCHANGED <<frames, sent, sock, buf, cur, open, rpc, lock, stopped, wire, gone, failed, nsend>>
AppEnd == /\ apc = "wait" /\ ReaderOver /\ (queue = <<>> \/ (Bug = "getfirst" /\ rpc = "failed"))
          /\ failed' = (rpc = "failed") /\ apc' = "leaving" /\ last' = 0
          /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, rpc, lock, stopped, wire, gone, nsend>>
AppLeave == /\ apc = "run" /\ "leave" \in Ops /\ apc' = "leaving" /\ last' = 0
            /\ UNCHANGED <<frames, sent, sock, buf, cur, open, queue, got, rpc, lock, stopped, wire, gone, failed, nsend>>
Reader == Look \/ Read \/ Take \/ Reply1 \/ Reply2
App == AppSend1 \/ AppSend2 \/ AppClose1 \/ AppClose2 \/ AppAwait \/ AppTake \/ AppEnd \/ AppLeave
Next == Send \/ Leave \/ Reader \/ App
Spec == Init /\ [][Next]_vars /\ WF_vars(Send) /\ WF_vars(Reader) /\ WF_vars(AppSend2) /\ WF_vars(AppClose1) /\ WF_vars(AppClose2)
             /\ WF_vars(AppTake) /\ WF_vars(AppEnd) /\ WF_vars(AppAwait) /\ WF_vars(Leave)

(* W02: what is delivered is what was sent, in order, each once *)
Pair(x) == [partial |-> x.e.partial, bin |-> x.e.bin]
Delivered == LET d == got \o queue IN
             /\ Len(d) <= Len(Msgs) /\ \A i \in DOMAIN d : d[i] = Pair(Msgs[i])
             /\ \A i \in DOMAIN d : Msgs[i].end <= sent
(* W02: a complete frame does not wait for more bytes *)
Prompt == (rpc = "read" /\ sock = 0 /\ ~stopped) => \A i \in DOMAIN Msgs : Msgs[i].end <= sent => i <= Len(got) + Len(queue)
(* W03: the end of a session comes after everything before it *)
NothingLost == (apc \in {"leaving", "left"} /\ "leave" \notin Ops /\ "close" \notin Ops /\ ~gone) => Len(got) = Len(Msgs)
Violation == Stop(M) # <<>> /\ Stop(M)[1].e.k = "fault"
Reported == failed => Violation
(* W04: whole frames, nothing after a close frame *)
Whole == \A i \in DOMAIN wire : wire[i][2] = 2 => i > 1 /\ wire[i - 1] = <<wire[i][1], 1>>
WholeOdd == \A i \in DOMAIN wire : (i % 2 = 1) <=> (wire[i][2] = 1)
CloseLast == \A i \in DOMAIN wire : wire[i] = <<"close", 2>> => i = Len(wire)
Pongs == Cardinality({i \in DOMAIN wire : wire[i] = <<"pong", 2>>}) <= Cardinality({i \in DOMAIN M : M[i].e.k = "pong" /\ M[i].end <= sent})
(* W05 *)
Ends == [](apc = "leaving" => <>(apc = "left"))
EndSeen == [](gone /\ apc = "wait" => <>(apc # "wait"))
Answered == "leave" \notin Ops /\ ~Gone => <>(Closed \/ sent = All)
=============================================================================
