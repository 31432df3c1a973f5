------------------------------ MODULE HttpConn ------------------------------
(* One HTTP connection: a client that sends messages in arbitrary segments,  *)
(* the server's read/parse/handle/respond loop with its receive buffer.      *)
(* A message is [h, b, kind]: head and body size in units, and what it asks. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, Kinds, Max, Chunk, Reuse, Lazy, Bug, Cuts
VARIABLES msgs, sent, sock, buf, cur, pc, served, resp, coding, last
vars == <<msgs, sent, sock, buf, cur, pc, served, resp, coding, last>>
(* kinds: get, post (body of 2), big (body over the limit), bad (malformed head), close, zip (accepts a coding) *)
Size(k) == CASE k = "get" -> [h |-> 1, b |-> 0] [] k = "post" -> [h |-> 2, b |-> 2] [] k = "big" -> [h |-> 1, b |-> Max]
             [] k = "bad" -> [h |-> 1, b |-> 0] [] k = "close" -> [h |-> 1, b |-> 0] [] k = "zip" -> [h |-> 2, b |-> 0]
M(i) == LET s == Size(msgs[i]) IN [h |-> s.h, b |-> s.b, kind |-> msgs[i], n |-> s.h + s.b]
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Total(i - 1) + M(i).n
All == Total(Len(msgs))
Init == /\ msgs \in [1..N -> Kinds]
        /\ sent = 0 /\ sock = 0 /\ buf = 0 /\ cur = 1 /\ pc = "head" /\ served = <<>> /\ resp = <<>>
        /\ coding = FALSE /\ last = 0
(* how the stream may be cut: 0 = anywhere *)
Send == /\ sent < All /\ pc # "closed"
        /\ (Lazy => (pc \in {"blocked", "blockedbody"} /\ sock = 0))
        /\ \E n \in 1..(All - sent) :
              /\ (Cuts # 0 => n <= Cuts \/ n = All - sent)
              /\ sent' = sent + n /\ sock' = sock + n /\ last' = n
        /\ pc' = (CASE pc = "blocked" -> "read" [] pc = "blockedbody" -> "body" [] OTHER -> pc)
        /\ UNCHANGED <<msgs, buf, cur, served, resp, coding>>
More == cur <= Len(msgs)
HeadIn == More /\ buf >= M(cur).h
Refuse(i) == M(i).kind \in {"bad", "big"}
(* start of a round: look into the buffer before reading (or not: Bug = "readfirst") *)
Look == /\ pc = "head"
        /\ pc' = (IF Bug = "readfirst" THEN "read" ELSE IF HeadIn THEN "parse" ELSE "read")
        /\ last' = 0 /\ UNCHANGED <<msgs, sent, sock, buf, cur, served, resp, coding>>
Read == /\ pc = "read"
        /\ IF sock = 0
           THEN pc' = "blocked" /\ UNCHANGED <<sock, buf>>
           ELSE \E n \in 1..(IF sock < Chunk THEN sock ELSE Chunk) :
                  /\ buf' = buf + n /\ sock' = sock - n
                  /\ pc' = (IF More /\ buf + n >= M(cur).h THEN "parse" ELSE "read")
        /\ last' = 0 /\ UNCHANGED <<msgs, sent, cur, served, resp, coding>>
Unblock == /\ pc = "blocked" /\ sock > 0 /\ pc' = "read"
           /\ last' = 0 /\ UNCHANGED <<msgs, sent, sock, buf, cur, served, resp, coding>>
TooBig == IF Bug = "countall" THEN buf + M(cur).b > Max ELSE M(cur).n > Max
Parse == /\ pc = "parse"
         /\ IF M(cur).kind = "bad" \/ TooBig
            THEN /\ resp' = Append(resp, [i |-> cur, st |-> "refused", keep |-> FALSE, zip |-> FALSE])
                 /\ pc' = "closed" /\ UNCHANGED coding
            ELSE /\ pc' = (IF buf >= M(cur).n THEN "handle" ELSE "body")
                 /\ coding' = (M(cur).kind = "zip" \/ (Bug = "sticky" /\ coding))
                 /\ UNCHANGED resp
         /\ last' = 0 /\ UNCHANGED <<msgs, sent, sock, buf, cur, served>>
Body == /\ pc = "body"
        /\ IF sock = 0 THEN pc' = "blockedbody" /\ UNCHANGED <<sock, buf>>
           ELSE LET want == M(cur).n - buf most == IF want < sock THEN want ELSE sock IN
                \E n \in 1..most :
                  /\ buf' = buf + n /\ sock' = sock - n
                  /\ pc' = (IF buf + n = M(cur).n THEN "handle" ELSE IF Bug = "oneread" THEN "closed" ELSE "body")
        /\ last' = 0 /\ UNCHANGED <<msgs, sent, cur, served, resp, coding>>
UnblockBody == /\ pc = "blockedbody" /\ sock > 0 /\ pc' = "body"
               /\ last' = 0 /\ UNCHANGED <<msgs, sent, sock, buf, cur, served, resp, coding>>
Handle == /\ pc = "handle"
          /\ LET keep == Reuse /\ M(cur).kind # "close" IN
             /\ served' = Append(served, cur)
             /\ resp' = Append(resp, [i |-> cur, st |-> "ok", keep |-> keep, zip |-> coding])
             /\ pc' = (IF keep \/ Bug = "noclose" THEN "head" ELSE "closed")
          /\ buf' = buf - M(cur).n /\ cur' = cur + 1
          /\ last' = 0 /\ UNCHANGED <<msgs, sent, sock, coding>>
Next == Send \/ Look \/ Read \/ Unblock \/ Parse \/ Body \/ UnblockBody \/ Handle
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == served = [i \in 1..Len(served) |-> i]
OneResponseEach == \A i \in DOMAIN resp : resp[i].i = i
NeverRefused == \A i \in DOMAIN served : ~Refuse(served[i])
(* nothing complete waits in the buffer while the server waits for the client *)
NoIdle == (pc \in {"blocked", "blockedbody"} /\ sock = 0 /\ More) => ~(buf >= M(cur).n \/ (buf >= M(cur).h /\ Refuse(cur)))
CloseIsLast == \A i \in DOMAIN resp : ~resp[i].keep => i = Len(resp)
OnlyWrongRefused == \A i \in DOMAIN resp : resp[i].st = "refused" => Refuse(i)
CodingOwn == \A i \in DOMAIN resp : resp[i].zip => M(i).kind = "zip"
(* what the client is owed: everything up to the first refusal or close *)
Ends(i) == Refuse(i) \/ msgs[i] = "close" \/ ~Reuse
Owed == IF \E i \in 1..N : Ends(i) THEN CHOOSE i \in 1..N : Ends(i) /\ \A j \in 1..i-1 : ~Ends(j) ELSE N
AllServed == <>(sent = All \/ Len(resp) = Owed) /\ [](sent = All => <>(Len(resp) = Owed))
Closed == [](pc = "closed" => [](pc = "closed"))
=============================================================================
