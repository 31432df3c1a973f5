------------------------------ MODULE SseTrace ------------------------------
(* Conformance of recorded event stream sessions.  Events:                   *)
(*   head  the response head (code, headers);  open: the application got its *)
(*         writer;  push m, close: it calls;  ret ok: the call returned      *)
(*   tx b  bytes were sent;  fail: a send failed;  ask r: connected()        *)
(*   gone  the listener has reset the connection;  shut: server shut down    *)
(*   eof / noeof  the listener saw (did not see) the end after a close       *)
(*   leave the handler is left;  end: the server closed the socket           *)
EXTENDS Sse, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l, hd, op, buf, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed, over
vars == <<t, l, hd, op, buf, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed, over>>
T == Traces[t]
Ev == T.ev[l]
IsEv(e) == l <= Len(T.ev) /\ Ev.e = e
Step == /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(T.ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
nType == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>
nLength == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>
nCoding == <<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>
nTransfer == <<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>
vStream == <<116, 101, 120, 116, 47, 101, 118, 101, 110, 116, 45, 115, 116, 114, 101, 97, 109>>
Header(n) == SelectSeq(Ev.headers, LAMBDA h : h[1] = n)
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ hd = FALSE /\ op = FALSE /\ buf = <<>> /\ cur = "none" /\ curopen = TRUE /\ mark = 0 /\ curm = <<>> /\ done = <<>>
        /\ maybe = <<>> /\ dead = FALSE /\ gone = FALSE /\ shut = FALSE /\ closed = FALSE /\ over = FALSE
Head0 == /\ IsEv("head") /\ ~hd /\ Ev.code = 200
         /\ Header(nLength) = <<>> /\ Header(nCoding) = <<>> /\ Header(nTransfer) = <<>>
         /\ Len(Header(nType)) = 1
         /\ LET v == Lower(Trim(UpTo(Header(nType)[1][2], 59))) IN v = vStream
         /\ hd' = TRUE /\ UNCHANGED <<op, buf, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed, over>> /\ Step
Open == IsEv("open") /\ hd /\ ~op /\ op' = TRUE /\ UNCHANGED <<hd, buf, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed, over>> /\ Step
Usable == ~dead /\ ~closed
Push == /\ IsEv("push") /\ op /\ cur = "none" /\ cur' = "push" /\ curopen' = Usable /\ mark' = Len(buf) /\ curm' = <<T.msgs[Ev.i + 1]>>
        /\ UNCHANGED <<hd, op, buf, done, maybe, dead, gone, shut, closed, over>> /\ Step
Close == /\ IsEv("close") /\ op /\ cur = "none" /\ cur' = "close" /\ curopen' = Usable
         /\ UNCHANGED <<hd, op, buf, mark, curm, done, maybe, dead, gone, shut, closed, over>> /\ Step
(* bytes only go out while they can arrive *)
Tx == /\ IsEv("tx") /\ hd /\ ~dead /\ ~closed /\ buf' = buf \o Ev.b
      /\ UNCHANGED <<hd, op, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed, over>> /\ Step
Fail == /\ IsEv("fail") /\ dead' = TRUE /\ UNCHANGED <<hd, op, buf, cur, curopen, mark, curm, done, maybe, gone, shut, closed, over>> /\ Step
(* what the listener makes of it *)
Shows(ms) == IF T.big THEN TRUE
             ELSE /\ (IF Explain THEN PrintT("EXPECT " \o ToString(Meaning(ms))) ELSE TRUE)
                  /\ Decode(buf) = Meaning(ms) /\ AtBorder(buf)
RetPush == /\ IsEv("ret") /\ cur = "push" /\ cur' = "none"
           /\ IF curopen /\ dead THEN UNCHANGED done /\ maybe' = curm
              ELSE /\ UNCHANGED maybe
                   /\ IF Ev.ok THEN curopen /\ Expressible(curm[1]) /\ done' = done \o curm /\ Shows(done')
                      ELSE /\ IF curopen THEN shut \/ ~Expressible(curm[1]) ELSE TRUE
                           /\ Len(buf) = mark /\ UNCHANGED done
           /\ UNCHANGED <<hd, op, buf, curopen, mark, curm, dead, gone, shut, closed, over>> /\ Step
RetClose == /\ IsEv("ret") /\ cur = "close" /\ cur' = "none" /\ closed' = TRUE
            /\ (Ev.ok \/ dead)
            /\ (curopen /\ ~dead) =>
                  LET d == Decode(buf) m == Meaning(done) IN
                  /\ Len(d) = Len(m) + 1 /\ SubSeq(d, 1, Len(m)) = m /\ d[Len(d)].type = vClose /\ AtBorder(buf)
            /\ UNCHANGED <<hd, op, buf, curopen, mark, curm, done, maybe, dead, gone, shut, over>> /\ Step
Ask == /\ IsEv("ask") /\ op /\ cur = "none"
       /\ (IF Ev.r THEN Usable /\ ~shut ELSE ~Usable \/ shut \/ gone)
       /\ UNCHANGED <<hd, op, buf, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed, over>> /\ Step
Gone == IsEv("gone") /\ gone' = TRUE /\ UNCHANGED <<hd, op, buf, cur, curopen, mark, curm, done, maybe, dead, shut, closed, over>> /\ Step
Shut == IsEv("shut") /\ shut' = TRUE /\ UNCHANGED <<hd, op, buf, cur, curopen, mark, curm, done, maybe, dead, gone, closed, over>> /\ Step
Eof == IsEv("eof") /\ UNCHANGED <<hd, op, buf, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed, over>> /\ Step
Leave == IsEv("leave") /\ op /\ cur = "none" /\ over' = TRUE /\ UNCHANGED <<hd, op, buf, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed>> /\ Step
(* at the end everything that was pushed with success is there *)
End == /\ IsEv("end") /\ over /\ l = Len(T.ev)
       /\ LET d == Decode(buf) IN
          /\ (IF Explain THEN PrintT("EXPECT " \o ToString(<<d, Meaning(done)>>)) ELSE TRUE)
          /\ \/ d = Meaning(done)
             \/ maybe # <<>> /\ dead /\ d = Meaning(done \o maybe)
             \/ /\ closed /\ Len(d) = Len(done) + 1 /\ SubSeq(d, 1, Len(done)) = Meaning(done) /\ d[Len(d)].type = vClose
       /\ UNCHANGED <<hd, op, buf, cur, curopen, mark, curm, done, maybe, dead, gone, shut, closed, over>> /\ Step
Next == Head0 \/ Open \/ Push \/ Close \/ Tx \/ Fail \/ RetPush \/ RetClose \/ Ask \/ Gone \/ Shut \/ Eof \/ Leave \/ End
=============================================================================
