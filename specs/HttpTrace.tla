------------------------------ MODULE HttpTrace ------------------------------
(* Conformance of recorded HTTP connections.  One trace: the messages the    *)
(* client sends (head bytes, body as length and token), the behaviour of the *)
(* handler at each call, the server's options, and the observed events:      *)
(*   feed n    the server asked for input and got n more bytes               *)
(*   wait      it asked for input when the client had nothing left to send   *)
(*   fin       the client ended its side (eof, reset or silence)             *)
(*   req       the handler was called                                        *)
(*   resp      a complete response was sent                                  *)
(*   end       the server was done with the connection                       *)
(* The conjuncts are tagged with the property they belong to; PROP selects.  *)
EXTENDS HttpOps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
PROP == IOEnv.PROP
VARIABLES t, l, fed, nreq, nresp, phase, fin, P
vars == <<t, l, fed, nreq, nresp, phase, fin, P>>
(* phase: await (between requests), busy (handler called), closing (a response announced close) *)
T == Traces[t]
Ev == T.ev[l]
IsEv(e) == l <= Len(T.ev) /\ Ev.e = e
Step == /\ l' = l + 1 /\ t' = t /\ P' = P
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(T.ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
Expect(x) == IF Explain THEN PrintT("EXPECT " \o ToString(x)) ELSE TRUE
On(ps) == PROP \in ps
Chk(ps, c) == IF On(ps) THEN Expect(ps) /\ c ELSE TRUE
RECURSIVE EndOf(_, _)
EndOf(T1, k) == IF k = 0 THEN 0 ELSE EndOf(T1, k - 1) + Len(T1.msgs[k].head) + T1.msgs[k].blen
(* what the messages of a trace mean, worked out once *)
Parsed(T1) == TLCEval([k \in 1..Len(T1.msgs) |->
    LET m == T1.msgs[k] end == EndOf(T1, k) IN
    [whole |-> m.whole, end |-> end, hend |-> end - m.blen, start |-> end - m.blen - Len(m.head),
     ref |-> IF m.whole THEN Refusals(m.head, T1.max) ELSE {},
     hs |-> IF m.whole THEN Headers(m.head) ELSE <<>>]])
Init == t \in 1..Len(Traces) /\ l = 1 /\ fed = 0 /\ nreq = 0 /\ nresp = 0 /\ phase = "await" /\ fin = FALSE
        /\ P = Parsed(Traces[t])

Msg(k) == T.msgs[k]
HeadAt(k) == k <= Len(P) /\ P[k].whole /\ fed >= P[k].hend
Refused(k) == P[k].ref
(* message k has arrived as far as it takes to decide about it *)
Decided(k) == HeadAt(k) /\ (Refused(k) # {} \/ fed >= P[k].end)
(* an unfinished head that is already too long: it can be refused before it is complete *)
TooLong(k) == k <= Len(T.msgs) /\ fed - P[k].start > T.max
Cur == nresp + 1
Hs(k) == P[k].hs

Feed == /\ IsEv("feed")
        /\ Chk({"H01"}, phase = "await" /\ ~Decided(Cur))
        /\ Chk({"H03", "H04"}, phase # "closing")
        /\ fed' = fed + Ev.n /\ UNCHANGED <<nreq, nresp, phase, fin>> /\ Step
Wait == /\ IsEv("wait")
        /\ Chk({"H01"}, phase = "await" /\ ~Decided(Cur))
        /\ Chk({"H03"}, phase = "await" /\ ~(HeadAt(Cur) /\ Refused(Cur) # {}))
        /\ Chk({"H02", "H04"}, phase # "closing")
        /\ UNCHANGED <<fed, nreq, nresp, phase, fin>> /\ Step
Fin == IsEv("fin") /\ fin' = TRUE /\ UNCHANGED <<fed, nreq, nresp, phase>> /\ Step

Creds(m) == IF m.cred = <<>> THEN <<<<>>, <<>>>> ELSE
            IF Index(m.cred[1], 58) = 0 THEN <<<<>>, <<>>>> ELSE <<UpTo(m.cred[1], 58), After(m.cred[1], 58)>>
(* repeated headers keep their order; different names may come in any order *)
SameHeaders(seen, sent) ==
    /\ Len(seen) = Len(sent)
    /\ \A n \in {h[1] : h \in Range(seen)} \cup {h[1] : h \in Range(sent)} : Values(seen, n) = Values(sent, n)
Fields(m, hs) ==
    LET q == Query(m.head) host == First(hs, nHost) IN
    /\ Expect(<<Method(m.head), Path(m.head), q, hs>>)
    /\ Ev.method = Method(m.head) /\ Ev.path = Path(m.head)
    /\ SameHeaders(Ev.hdrs, hs)
    /\ \A h \in Range(Ev.byname) : h[2] = First(hs, Lower(h[1]))
    /\ \A p \in Range(Ev.params) :
          LET of == SelectSeq(q, LAMBDA x : x[1] = Lower(p[1])) IN
          IF of = <<>> THEN p[2] = <<>> ELSE \E i \in DOMAIN of : p[2] = of[i][2]
    /\ IF host = <<>> THEN Ev.hostname # <<>>
       ELSE Ev.host = host /\ Ev.hostname = HostName(host) /\ Ev.port = HostPort(host)
    /\ <<Ev.user, Ev.pass>> = Creds(m)
Req == /\ IsEv("req")
       /\ LET k == nreq + 1 IN
          /\ Chk({"H01"}, k = Cur /\ phase = "await" /\ k <= Len(T.msgs) /\ Decided(k) /\ Refused(k) = {})
          /\ Chk({"H01", "H08"}, k <= Len(T.msgs) /\ Msg(k).whole => (Ev.blen = Msg(k).blen /\ Ev.btok = Msg(k).btok))
          /\ Chk({"H01"}, Msg(k).whole => (Ev.method = Method(Msg(k).head) /\ Ev.path = Path(Msg(k).head)))
          /\ Chk({"H03"}, k <= Len(T.msgs) /\ Msg(k).whole /\ \A j \in 1..k : Refused(j) = {})
          /\ Chk({"H02"}, phase = "await")
          /\ Chk({"H04"}, phase = "await")
          /\ Chk({"H06"}, phase = "await")
          /\ Chk({"H08"}, k <= Len(T.msgs) /\ Fields(Msg(k), Hs(k)))
          /\ nreq' = k
       /\ phase' = (IF phase = "await" THEN "busy" ELSE phase)
       /\ UNCHANGED <<fed, nresp, fin>> /\ Step

One(v) == Len(v) = 1
Own(hb, n) == Values(hb.hdrs, n)
ServerSet == {nLength, nDate, nServer, nReqId, nConnection, nCoding}
(* --- a handler's response *)
RespFor(k, hb) ==
    LET hs == Hs(k) isHead == Method(Msg(k).head) = HEADm
        own == IF Own(hb, nConnection) = <<>> THEN <<>> ELSE Own(hb, nConnection)[1]
        owncoding == IF Own(hb, nCoding) = <<>> THEN <<>> ELSE Own(hb, nCoding)[1]
        type == IF Own(hb, nType) = <<>> THEN <<>> ELSE Own(hb, nType)[1]
        coding == Coding(hs, T.compress, type, owncoding, hb.blen)
        silent == isHead \/ Bodyless(hb.status)
        ce == Values(Ev.hdrs, nCoding)
    IN
    /\ Chk({"H02"}, /\ phase = "busy" /\ Expect(hb)
                    /\ Ev.code = hb.status /\ (hb.text # <<>> => Ev.text = hb.text)
                    /\ \A n \in {h[1] : h \in Range(hb.hdrs)} \ ServerSet : Values(Ev.hdrs, n) = Own(hb, n)
                    /\ One(Values(Ev.hdrs, nDate)) /\ One(Values(Ev.hdrs, nServer)) /\ One(Values(Ev.hdrs, nReqId))
                    /\ One(Values(Ev.hdrs, nConnection))
                    /\ IF silent THEN Ev.n = 0
                       ELSE /\ One(Values(Ev.hdrs, nLength)) /\ Digits(Values(Ev.hdrs, nLength)[1])
                            /\ Num(Values(Ev.hdrs, nLength)[1]) = Ev.n
                            /\ (Ev.dtok = hb.btok \/ Ev.rtok = hb.btok))
    /\ Chk({"H05"}, /\ Expect(<<coding, owncoding>>)
                    /\ (hb.blen > 0 /\ ~silent) =>
                         IF owncoding # <<>> THEN ce = <<owncoding>> /\ Ev.rtok = hb.btok
                         ELSE IF coding # <<>> THEN ce = <<coding>> /\ Ev.dtok = hb.btok
                         ELSE ce = <<>> /\ Ev.rtok = hb.btok
                    /\ (hb.blen = 0 /\ ~silent /\ owncoding = <<>>) =>
                         \/ ce = <<>> /\ Ev.n = 0
                         \/ ce # <<>> /\ ce[1] \in Accepted(hs) /\ Ev.dtok = hb.btok)
    /\ Chk({"H04"}, /\ Expect(Keep(hs, own, T.reuse))
                    /\ One(Values(Ev.hdrs, nConnection))
                    /\ IF own # <<>> THEN Has(Lower(Values(Ev.hdrs, nConnection)[1]), vClose) = ~Keep(hs, own, T.reuse)
                       ELSE Lower(Values(Ev.hdrs, nConnection)[1]) = (IF Keep(hs, own, T.reuse) THEN vKeep ELSE vClose))
(* --- a response in place of a failed handler's *)
tPlain == <<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>
tHtml == <<116, 101, 120, 116, 47, 104, 116, 109, 108>>
tJson == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 115, 111, 110>>
TypeOf(format) == CASE format = "plain" -> tPlain [] format = "html" -> tHtml [] format = "json" -> tJson
Failed(k) ==
    LET hs == Hs(k) v == Values(Ev.hdrs, nConnection) IN
    /\ Chk({"H06"}, /\ phase = "busy" /\ Ev.code = 500
                    /\ StartsWith(Lower(First(Ev.hdrs, nType)), TypeOf(T.errtype))
                    /\ (Method(Msg(k).head) # HEADm => Ev.dtok # "bad" /\ Ev.dlen > 0 /\ Ev.isfmt)
                    /\ One(v) /\ Lower(v[1]) = (IF Keep(hs, <<>>, T.reuse) THEN vKeep ELSE vClose))
    /\ Chk({"H02"}, phase = "busy" /\ One(Values(Ev.hdrs, nDate)) /\ One(Values(Ev.hdrs, nServer)) /\ One(Values(Ev.hdrs, nReqId))
                    /\ One(v) /\ (Method(Msg(k).head) # HEADm => Num(First(Ev.hdrs, nLength)) = Ev.n))
    /\ Chk({"H04"}, One(v) /\ Lower(v[1]) = (IF Keep(hs, <<>>, T.reuse) THEN vKeep ELSE vClose))
(* --- a refusal *)
Refusal(k) ==
    LET v == Values(Ev.hdrs, nConnection) IN
    /\ Chk({"H03"}, /\ k <= Len(T.msgs)
                    /\ Expect(IF HeadAt(k) THEN Refused(k) ELSE {413})
                    /\ \/ HeadAt(k) /\ Ev.code \in Refused(k)
                       \/ TooLong(k) /\ Ev.code = 413
                    /\ One(v) /\ Has(Lower(v[1]), vClose))
    /\ Chk({"H01", "H02", "H06"}, phase = "await" /\ k <= Len(T.msgs) /\ ((HeadAt(k) /\ Refused(k) # {}) \/ TooLong(k)))
    /\ Chk({"H04"}, phase = "await" /\ One(v) /\ Lower(v[1]) = vClose)
Resp == /\ IsEv("resp")
        /\ LET k == nresp + 1 IN
           /\ IF phase = "busy" /\ nresp < nreq
              THEN LET hb == T.hand[k] IN IF hb.kind = "resp" THEN RespFor(k, hb) ELSE Failed(k)
              ELSE /\ Chk({"H01", "H02", "H03", "H04", "H06"}, phase = "await")
                   /\ Refusal(k)
           /\ nresp' = k
        /\ phase' = (IF Has(Lower(First(Ev.hdrs, nConnection)), vClose) THEN "closing" ELSE "await")
        /\ UNCHANGED <<fed, nreq, fin>> /\ Step
(* the connection ends after a close was announced, or when the client is gone and nothing is pending *)
End == /\ IsEv("end")
       /\ Chk({"H01", "H02", "H06"}, phase = "closing" \/ (phase = "await" /\ fin /\ ~Decided(Cur)))
       /\ Chk({"H03"}, phase = "closing" \/ ~((HeadAt(Cur) /\ Refused(Cur) # {}) \/ TooLong(Cur)))
       /\ Chk({"H03"}, \A j \in 1..Len(T.msgs) : (j = Cur /\ HeadAt(j)) => (Refused(j) = {} \/ phase = "closing"))
       /\ Chk({"H04"}, phase = "closing" \/ (phase = "await" /\ fin))
       /\ UNCHANGED <<fed, nreq, nresp, phase, fin>> /\ Step
Next == Feed \/ Wait \/ Fin \/ Req \/ Resp \/ End
=============================================================================
