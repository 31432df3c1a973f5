------------------------------- MODULE WsPing -------------------------------
(* Liveness of an idle websocket client: the reader looks at the clock after *)
(* every receive timeout (one tick), pings every Period ticks and gives up   *)
(* when its last ping is more than Skip periods younger than the last answer.*)
EXTENDS Integers, TLC
CONSTANTS Period, Skip, Horizon, Bug
VARIABLES now, ping, answer, open, unanswered, owed, willing, lastgap, cause, told
vars == <<now, ping, answer, open, unanswered, owed, willing, lastgap, cause, told>>
Init == now = 0 /\ ping = 0 /\ answer = 0 /\ open = TRUE /\ unanswered = 0 /\ owed = FALSE /\ willing \in BOOLEAN /\ lastgap = Period
        /\ cause = "none" /\ told = FALSE
Look == /\ open /\ cause = "none"
        /\ IF ping - answer > Skip * Period /\ Bug # "never"
           THEN open' = FALSE /\ cause' = "silent" /\ told' = TRUE /\ UNCHANGED <<ping, unanswered, owed, lastgap>>
           ELSE IF now - ping > Period
           THEN /\ ping' = (IF Bug = "flood" THEN ping ELSE now) /\ unanswered' = unanswered + 1 /\ owed' = TRUE /\ lastgap' = now - ping
                /\ UNCHANGED <<open, cause, told>>
           ELSE UNCHANGED <<ping, unanswered, owed, open, lastgap, cause, told>>
        /\ now' = now + 1 /\ now < Horizon /\ UNCHANGED <<answer, willing>>
Answer == /\ open /\ owed /\ willing /\ owed' = FALSE /\ unanswered' = 0
          /\ answer' = (IF Bug = "deaf" THEN answer ELSE now)
          /\ UNCHANGED <<now, ping, open, willing, lastgap, cause, told>>
Tire == willing /\ willing' = FALSE /\ UNCHANGED <<now, ping, answer, open, unanswered, owed, lastgap, cause, told>>
(* the application lets go, or the server is told to stop *)
Stop == /\ open /\ cause = "none" /\ cause' \in {"leave", "shutdown"} /\ UNCHANGED <<now, ping, answer, open, unanswered, owed, willing, lastgap, told>>
Bye == /\ open /\ cause # "none" /\ open' = FALSE /\ told' = (Bug # "silentend")
       /\ UNCHANGED <<now, ping, answer, unanswered, owed, willing, lastgap, cause>>
Next == Look \/ Answer \/ Tire \/ Stop \/ Bye
Spec == Init /\ [][Next]_vars /\ WF_vars(Bye) /\ WF_vars(Look)
OnlySilent == (~open /\ cause = "silent") => unanswered >= 2
Patience == open => unanswered <= Skip + 2
Pace == lastgap >= Period
Told == ~open => told
Ends == [](cause # "none" => <>~open)
=============================================================================
