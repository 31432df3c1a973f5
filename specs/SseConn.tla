------------------------------- MODULE SseConn -------------------------------
(* An application that pushes events to one listener: the application, the   *)
(* writer, the connection and the listener.  Every push is cut into Parts    *)
(* sends; any send can fail, the server can be shut down and the listener    *)
(* can go at any time.  The writer is the design under check: what it tells  *)
(* the application must agree with what the listener can have received.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, Parts, Bug
VARIABLES ops, cur, left, wire, sent, open, gone, shut, closed, told, hist
vars == <<ops, cur, left, wire, sent, open, gone, shut, closed, told, hist>>
(* cur: what the application is waiting for; wire: parts at the listener, as <<event number or 0 for close, part>>;
   sent: events whose push returned normally while the connection was usable to its end;
   told: the last answer the application got *)
Init == /\ ops = 0 /\ cur = "none" /\ left = 0 /\ wire = <<>> /\ sent = 0 /\ open = TRUE /\ gone = FALSE
        /\ shut = FALSE /\ closed = FALSE /\ told = "ok" /\ hist = <<>>
Note(h) == hist' = Append(hist, h)
Idle == cur = "none" /\ ops < MaxOps
(* refused without sending anything *)
Push == /\ Idle /\ ops' = ops + 1 /\ Note("push")
        /\ IF open \/ (Bug = "afterclose" /\ closed) THEN cur' = "push" /\ left' = Parts /\ told' = "busy"
           ELSE cur' = "none" /\ left' = 0 /\ told' = "refused"
        /\ UNCHANGED <<wire, sent, open, gone, shut, closed>>
(* a message that would break the framing *)
Bad == /\ Idle /\ ops' = ops + 1 /\ Note("bad") /\ told' = "refused"
       /\ IF Bug = "framing" /\ open THEN wire' = wire \o <<<<99, 1>>>> ELSE UNCHANGED wire
       /\ UNCHANGED <<cur, left, sent, open, gone, shut, closed>>
Close == /\ Idle /\ ops' = ops + 1 /\ Note("close")
         /\ IF open THEN cur' = "close" /\ left' = Parts /\ told' = "busy"
            ELSE cur' = "none" /\ left' = 0 /\ told' = "ok"
         /\ UNCHANGED <<wire, sent, open, gone, shut, closed>>
Ask == /\ Idle /\ ops' = ops + 1 /\ Note("ask") /\ told' = (IF open /\ ~shut THEN "yes" ELSE "no")
       /\ UNCHANGED <<cur, left, wire, sent, open, gone, shut, closed>>
Send == /\ cur # "none" /\ left > 0 /\ ~gone
        /\ wire' = Append(wire, <<IF cur = "push" THEN sent + 1 ELSE 0, Parts - left + 1>>)
        /\ left' = left - 1 /\ UNCHANGED <<ops, cur, sent, open, gone, shut, closed, told, hist>>
(* the send finds out that the listener is gone *)
Fail == /\ cur # "none" /\ left > 0 /\ gone
        /\ open' = (Bug = "keepopen") /\ cur' = "none" /\ left' = 0 /\ told' = "lost"
        /\ closed' = (closed \/ cur = "close")
        /\ UNCHANGED <<ops, wire, sent, gone, shut, hist>>
Return == /\ cur # "none" /\ left = 0 /\ cur' = "none" /\ told' = "ok"
          /\ (IF cur = "push" THEN sent' = sent + 1 /\ UNCHANGED <<open, closed>>
              ELSE /\ open' = (Bug = "noend") /\ closed' = TRUE /\ UNCHANGED sent)
          /\ UNCHANGED <<ops, left, wire, gone, shut, hist>>
Leave == ~gone /\ gone' = TRUE /\ Note(IF cur = "none" THEN "gone" ELSE "gone" \o ToString(left)) /\ UNCHANGED <<ops, cur, left, wire, sent, open, shut, closed, told>>
Shut == ~shut /\ cur = "none" /\ shut' = TRUE /\ Note("shut") /\ UNCHANGED <<ops, cur, left, wire, sent, open, gone, closed, told>>
Next == Push \/ Bad \/ Close \/ Ask \/ Send \/ Fail \/ Return \/ Leave \/ Shut
Spec == Init /\ [][Next]_vars
Event(n) == [i \in 1..Parts |-> <<n, i>>]
RECURSIVE Events(_)
Events(n) == IF n = 0 THEN <<>> ELSE Events(n - 1) \o Event(n)
Prefix(s, u) == Len(s) <= Len(u) /\ s = SubSeq(u, 1, Len(s))
(* the listener has every event that was pushed with success, then at most the beginning of one more, or the close event *)
Intact == LET e == Events(sent) IN
          /\ Prefix(e, wire)
          /\ LET r == SubSeq(wire, Len(e) + 1, Len(wire)) IN Prefix(r, Event(sent + 1)) \/ Prefix(r, Event(0))
Border == (cur = "none" /\ ~gone) => Len(wire) = Parts * (sent + IF closed THEN 1 ELSE 0)
(* nothing is sent once the connection is known to be over *)
Final == closed => (open = FALSE /\ cur = "none")
Honest == (told = "yes") => (open /\ ~closed)
Reported == [][(told' = "lost") => ~open']_vars
=============================================================================
