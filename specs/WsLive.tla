-------------------------------- MODULE WsLive --------------------------------
(* Conformance of websocket sessions in real time (milliseconds).  One trace:*)
(* the plan (which pings the client answers: answers = -1 all; frames it     *)
(* sends before it goes) and the events with their times.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l, lastping, unanswered, cause, since, code, learned, freed, gone, msgs, conn
vars == <<t, l, lastping, unanswered, cause, since, code, learned, freed, gone, msgs, conn>>
T == Traces[t]
Ev == T.ev[l]
Prompt == 5000        (* ends are reported within this time *)
MinGap == 1000        (* pings come every few seconds *)
MaxGap == 12000
Expect(x) == IF Explain THEN PrintT("EXPECT " \o ToString(x)) ELSE TRUE
IsEv(e) == l <= Len(T.ev) /\ Ev.e = e
Step == /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(T.ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ lastping = 0 /\ unanswered = 0 /\ cause = "none" /\ since = 0 /\ code = 0
        /\ learned = FALSE /\ freed = FALSE /\ gone = FALSE /\ msgs = 0 /\ conn = FALSE
(* an open session with an idle client has been pinged recently *)
Pinged == cause = "none" /\ conn => Ev.t - lastping <= MaxGap
Because(c) == cause' = (IF cause = "none" THEN c ELSE cause) /\ since' = (IF cause = "none" THEN Ev.t ELSE since)
Soon == Ev.t - since <= Prompt
Up == IsEv("up") /\ conn' = TRUE /\ UNCHANGED <<lastping, unanswered, cause, since, code, learned, freed, gone, msgs>> /\ Step
Ping == /\ IsEv("ping") /\ Expect(<<"ping gap", Ev.t - lastping>>)
        /\ ~gone /\ code = 0 /\ Pinged /\ (cause = "none" => Ev.t - lastping >= MinGap)
        /\ lastping' = Ev.t /\ unanswered' = unanswered + 1
        /\ UNCHANGED <<cause, since, code, learned, freed, gone, msgs, conn>> /\ Step
Answer == IsEv("answer") /\ unanswered' = 0 /\ UNCHANGED <<lastping, cause, since, code, learned, freed, gone, msgs, conn>> /\ Step
Op == /\ IsEv("op") /\ Pinged
      /\ IF Ev.what \in {"eof", "rst", "shutdown"} THEN Because(Ev.what) ELSE UNCHANGED <<cause, since>>
      /\ UNCHANGED <<lastping, unanswered, code, learned, freed, gone, msgs, conn>> /\ Step
Cls == IsEv("cls") /\ Because("close") /\ UNCHANGED <<lastping, unanswered, code, learned, freed, gone, msgs, conn>> /\ Step
Ret == IsEv("ret") /\ Because("leave") /\ UNCHANGED <<lastping, unanswered, code, learned, freed, gone, msgs, conn>> /\ Step
Msg == IsEv("msg") /\ msgs < T.frames /\ msgs' = msgs + 1 /\ UNCHANGED <<lastping, unanswered, cause, since, code, learned, freed, gone, conn>> /\ Step
Silent == unanswered >= 2
(* the application learns of the end: not without a cause, and soon after it *)
Learn == /\ IsEv("awf") \/ IsEv("awx")
         /\ Expect(<<cause, unanswered, Ev.t - since, msgs>>)
         /\ IF cause = "none" THEN Silent ELSE Soon
         /\ (cause \in {"eof", "none"} => msgs = T.frames)
         /\ cause' = (IF cause = "none" THEN "silent" ELSE cause) /\ since' = (IF cause = "none" THEN Ev.t ELSE since)
         /\ learned' = TRUE /\ UNCHANGED <<lastping, unanswered, code, freed, gone, msgs, conn>> /\ Step
Freed == /\ IsEv("freed") /\ Expect(<<cause, Ev.t - since>>) /\ cause # "none" /\ Soon
         /\ freed' = TRUE /\ UNCHANGED <<lastping, unanswered, cause, since, code, learned, gone, msgs, conn>> /\ Step
Codes == CASE cause = "leave" -> {1001} [] cause = "shutdown" -> {1001} [] cause = "close" -> {T.code}
           [] cause \in {"silent", "none"} -> {1000, 1001, 1002, 1008, 1011} [] OTHER -> {1000, 1001}
Close == /\ IsEv("close") /\ Expect(<<cause, Codes, unanswered>>)
         /\ code = 0 /\ ~gone /\ (cause = "none" => Silent) /\ Ev.code \in Codes
         /\ code' = Ev.code /\ Because("silent")
         /\ UNCHANGED <<lastping, unanswered, learned, freed, gone, msgs, conn>> /\ Step
(* a connected client is told with a close frame *)
End == /\ IsEv("end") /\ ~gone
       /\ (cause \notin {"eof", "rst"} => code # 0)
       /\ gone' = TRUE /\ UNCHANGED <<lastping, unanswered, cause, since, code, learned, freed, msgs, conn>> /\ Step
(* the observation stops with the connection still open *)
Open == /\ IsEv("open") /\ FALSE
        /\ UNCHANGED <<lastping, unanswered, cause, since, code, learned, freed, gone, msgs, conn>> /\ Step
Finished == /\ IsEv("finished") /\ Expect(Ev.t - since) /\ cause # "none" /\ Soon
            /\ UNCHANGED <<lastping, unanswered, cause, since, code, learned, freed, gone, msgs, conn>> /\ Step
Done == /\ IsEv("done") /\ freed /\ (cause # "rst" => gone)
        /\ unanswered <= 6
        /\ UNCHANGED <<lastping, unanswered, cause, since, code, learned, freed, gone, msgs, conn>> /\ Step
Next == Up \/ Ping \/ Answer \/ Op \/ Cls \/ Ret \/ Msg \/ Learn \/ Freed \/ Close \/ End \/ Open \/ Finished \/ Done
=============================================================================
