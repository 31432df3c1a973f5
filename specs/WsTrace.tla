------------------------------- MODULE WsTrace -------------------------------
(* Conformance of recorded websocket sessions.  One trace: the handshake     *)
(* request (head, whether bytes follow it at once), the client's frames, the *)
(* messages the application sends, the frame limit, and the events:          *)
(*   feed n        the server asked for input and got n more bytes           *)
(*   resp          the response to the handshake                             *)
(*   up / uperr    the application got a session / was refused one           *)
(*   msg           it took a message;  awf, awx: it learned of the end       *)
(*   snd, sok, sex it starts sending message i; that returned; that threw    *)
(*   cls c         it closes the session;  ret: it lets go of it             *)
(*   tx            a complete frame was sent                                 *)
(*   quiet, late   the client has waited for what it is owed (late: in vain) *)
(*   fin           the client ended its side;  end: the connection is over   *)
(* Any other event (junk, hang, died, phantom) is never allowed.             *)
EXTENDS HttpOps, Codec, Sha1, Json, IOUtils
W == INSTANCE WsFrames
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
PROP == IOEnv.PROP
VARIABLES t, l, fed, up, di, pi, out, seen, cont, closed, cls, ret, fin, P
vars == <<t, l, fed, up, di, pi, out, seen, cont, closed, cls, ret, fin, P>>
T == Traces[t]
Ev == T.ev[l]
IsEv(e) == l <= Len(T.ev) /\ Ev.e = e
Step == /\ l' = l + 1 /\ t' = t /\ P' = P
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(T.ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
Expect(x) == IF Explain THEN PrintT("EXPECT " \o ToString(x)) ELSE TRUE
Chk(ps, c) == IF PROP \in ps THEN Expect(ps) /\ c ELSE TRUE
GET == <<71, 69, 84>>
nUpgrade == <<117, 112, 103, 114, 97, 100, 101>>
vWebsocket == <<119, 101, 98, 115, 111, 99, 107, 101, 116>>
nKey == <<115, 101, 99, 45>> \o vWebsocket \o <<45, 107, 101, 121>>
nAnswer == <<115, 101, 99, 45>> \o vWebsocket \o <<45, 97, 99, 99, 101, 112, 116>>
Magic == <<50, 53, 56, 69, 65, 70, 65, 53, 45, 69, 57, 49, 52, 45, 52, 55, 68, 65, 45, 57, 53, 67, 65, 45, 67, 53, 65, 66, 48, 68, 67, 56, 53, 66, 49, 49>>
(* why an upgrade is refused; empty: it is accepted *)
Refuse(T1) == LET hs == Headers(T1.head) IN
    (IF Method(T1.head) # GET THEN {405} ELSE {})
    \cup (IF Lower(First(hs, nUpgrade)) # vWebsocket \/ First(hs, nKey) = <<>> \/ T1.extra THEN {400} ELSE {})
Answer(T1) == ToBase64(Sha1(First(Headers(T1.head), nKey) \o Magic))
Prepared(T1) == TLCEval(LET m == TLCEval(W!Meaning(T1.frames, 1, "none", Len(T1.head), T1.max)) ref == Refuse(T1) IN
    [ref |-> ref, msgs |-> W!Kind(m, "msg"), pongs |-> W!Kind(m, "pong"), stop |-> W!Stop(m),
     answer |-> IF ref = {} THEN Answer(T1) ELSE <<>>])
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ fed = 0 /\ up = "no" /\ di = 0 /\ pi = 0 /\ out = {} /\ seen = {} /\ cont = FALSE
        /\ closed = FALSE /\ cls = {} /\ ret = FALSE /\ fin = FALSE /\ P = Prepared(Traces[t])
(* a frame that ends the session: the server can know from its first bytes, it must know from need on *)
Stopping == P.stop # <<>> /\ fed > P.stop[1].start + 1
Need == LET s == P.stop[1] IN IF s.e.k = "fault" /\ 1009 \in s.e.codes THEN s.head ELSE s.end
MustStop == P.stop # <<>> /\ fed >= Need
Ending == Stopping \/ cls # {} \/ ret
In(s) == Cardinality({i \in DOMAIN s : s[i].end <= fed})

Feed == IsEv("feed") /\ fed' = fed + Ev.n /\ UNCHANGED <<up, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
Fin == IsEv("fin") /\ fin' = TRUE /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, cls, ret>> /\ Step
Wait == IsEv("wait") /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
Up == /\ IsEv("up") /\ Chk({"W01", "W02"}, P.ref = {} /\ up \in {"no", "told"})
      /\ up' = "yes" /\ UNCHANGED <<fed, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
UpErr == /\ IsEv("uperr") /\ Chk({"W01", "W02"}, P.ref # {} /\ up = "no")
         /\ up' = "refused" /\ UNCHANGED <<fed, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
Resp == /\ IsEv("resp")
        /\ LET con == Lower(First(Ev.hdrs, nConnection)) IN
           Chk({"W01"}, /\ Expect(<<P.ref, P.answer>>)
                        /\ up \in {"no", "refused"}
                        /\ IF P.ref = {}
                           THEN /\ Ev.code = 101 /\ up = "no" /\ Lower(First(Ev.hdrs, nUpgrade)) = vWebsocket
                                /\ Lower(First(Ev.hdrs, nConnection)) = nUpgrade
                                /\ Values(Ev.hdrs, nAnswer) = <<P.answer>>
                           ELSE IF T.catch THEN Ev.code = 200 /\ up = "refused"
                           ELSE Ev.code \in P.ref /\ con = vClose)
        /\ up' = (IF up = "no" THEN "told" ELSE up)
        /\ UNCHANGED <<fed, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
Msg == /\ IsEv("msg")
       /\ Chk({"W02", "W03", "W05"}, /\ di < Len(P.msgs)
                                     /\ Expect(P.msgs[di + 1])
                                     /\ P.msgs[di + 1].end <= fed
                                     /\ P.msgs[di + 1].e.tok = Ev.tok)
       /\ Chk({"W02"}, P.msgs[di + 1].e.bin = Ev.bin /\ P.msgs[di + 1].e.partial = Ev.partial)
       /\ di' = di + 1 /\ UNCHANGED <<fed, up, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
(* everything owed so far has been given *)
Settled == /\ Chk({"W02"}, T.drains /\ ~closed /\ cls = {} => di = In(P.msgs))
           /\ Chk({"W03"}, closed \/ ret \/ pi = In(P.pongs))
           /\ Chk({"W03"}, MustStop => closed)
Quiet == (IsEv("quiet") \/ IsEv("late")) /\ Settled
         /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
Learn == /\ (IsEv("awf") \/ IsEv("awx"))
         /\ Chk({"W02", "W03", "W05"}, /\ Stopping \/ fin \/ cls # {}
                                       /\ (cls = {} /\ ~(fin /\ T.fin = "rst")) => di = In(P.msgs))
         /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
Snd == IsEv("snd") /\ out' = out \cup {Ev.i} /\ UNCHANGED <<fed, up, di, pi, seen, cont, closed, cls, ret, fin>> /\ Step
Sok == /\ IsEv("sok") /\ Chk({"W04"}, Ev.i \in seen)
       /\ out' = out \ {Ev.i} /\ UNCHANGED <<fed, up, di, pi, seen, cont, closed, cls, ret, fin>> /\ Step
Sex == /\ IsEv("sex") /\ Chk({"W04"}, (closed \/ Ending \/ fin) /\ Ev.i \notin seen)
       /\ out' = out \ {Ev.i} /\ UNCHANGED <<fed, up, di, pi, seen, cont, closed, cls, ret, fin>> /\ Step
Cls == IsEv("cls") /\ cls' = cls \cup {Ev.code} /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, ret, fin>> /\ Step
(* closing can only fail when the client is gone *)
Clx == IsEv("clx") /\ Chk({"W03", "W04"}, fin) /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
Ret == IsEv("ret") /\ ret' = TRUE /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, cls, fin>> /\ Step
(* --- frames of the server *)
Codes == (IF Stopping THEN P.stop[1].e.codes ELSE {}) \cup cls \cup (IF ret THEN {1001} ELSE {})
Tx == /\ IsEv("tx")
      /\ Chk({"W04"}, ~closed /\ ~Ev.masked /\ Ev.minimal /\ Ev.rsv = 0)
      /\ Chk({"W02", "W03"}, ~closed)
      /\ CASE Ev.op \in {0, 1, 2} ->
                LET c == {i \in out \ seen : T.sends[i + 1].tok = Ev.tok} IN
                /\ Chk({"W04"}, /\ Expect(IF c = {} THEN "no such message is being sent" ELSE T.sends[(CHOOSE i \in c : TRUE) + 1])
                                /\ c # {}
                                /\ LET s == T.sends[(CHOOSE i \in c : TRUE) + 1] IN
                                   /\ Ev.fin = ~s.partial
                                   /\ Ev.op = (IF cont THEN 0 ELSE IF s.bin THEN 2 ELSE 1))
                /\ seen' = (IF c = {} THEN seen ELSE seen \cup {CHOOSE i \in c : TRUE})
                /\ cont' = ~Ev.fin /\ UNCHANGED <<pi, closed>>
           [] Ev.op = 9 -> Chk({"W04"}, Ev.fin /\ Ev.len <= 125) /\ UNCHANGED <<seen, cont, pi, closed>>
           [] Ev.op = 10 -> /\ Chk({"W03", "W04"}, Ev.fin /\ pi < Len(P.pongs) /\ P.pongs[pi + 1].end <= fed /\ P.pongs[pi + 1].e.tok = Ev.tok)
                            /\ pi' = pi + 1 /\ UNCHANGED <<seen, cont, closed>>
           [] Ev.op = 8 -> /\ Chk({"W03", "W05"}, Expect(Codes) /\ Ev.code \in Codes)
                           /\ Chk({"W04"}, Ev.fin /\ Ev.len >= 2 /\ Ev.len <= 125)
                           /\ closed' = TRUE /\ UNCHANGED <<seen, cont, pi>>
           [] OTHER -> FALSE
      /\ UNCHANGED <<fed, up, di, out, cls, ret, fin>> /\ Step
(* a frame that is cut short by the end of the connection *)
Cut == IsEv("cut") /\ Chk({"W02", "W03", "W04"}, fin) /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
End == /\ IsEv("end")
       /\ Chk({"W01"}, up # "no" \/ fin)
       /\ Chk({"W03", "W05"}, (up = "yes" /\ ~fin) => closed)
       /\ Chk({"W03"}, (up = "yes" /\ MustStop /\ ~ret /\ cls = {}) => closed /\ pi = Len(P.pongs))
       /\ Chk({"W03"}, (up = "yes" /\ MustStop) => closed)
       /\ UNCHANGED <<fed, up, di, pi, out, seen, cont, closed, cls, ret, fin>> /\ Step
Next == Feed \/ Fin \/ Wait \/ Up \/ UpErr \/ Resp \/ Msg \/ Quiet \/ Learn \/ Snd \/ Sok \/ Sex \/ Cls \/ Clx \/ Ret \/ Tx \/ Cut \/ End
=============================================================================
