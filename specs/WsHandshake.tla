----------------------------- MODULE WsHandshake -----------------------------
(* How a connection changes from HTTP to a websocket session: the request,   *)
(* the bytes that may already follow it, the handler that asks for the       *)
(* upgrade, a handler that copes with a refusal.                             *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Bug, N
VARIABLES reqs, i, mode, pc, early, got, resp, used
vars == <<reqs, i, mode, pc, early, got, resp, used>>
Req == [get : BOOLEAN, up : BOOLEAN, key : BOOLEAN, early : BOOLEAN, copes : BOOLEAN, asks : BOOLEAN]
(* early data is either there when the head is complete or arrives later *)
Init == /\ reqs \in [1..N -> Req] /\ i = 1 /\ mode = "http" /\ pc = "read" /\ early = FALSE
        /\ got = {} /\ resp = <<>> /\ used = FALSE
R == reqs[i]
Read == pc = "read" /\ i <= N /\ mode = "http" /\ early' = R.early /\ pc' = "handle" /\ UNCHANGED <<reqs, i, mode, got, resp, used>>
Late == pc = "handle" /\ Bug = "late" /\ ~early /\ early' = TRUE /\ UNCHANGED <<reqs, i, mode, pc, got, resp, used>>
Valid == (R.get \/ Bug = "method") /\ R.up /\ R.key /\ (~early \/ Bug = "early")
Handle == /\ pc = "handle"
          /\ IF R.asks /\ Valid
             THEN /\ mode' = "ws" /\ resp' = Append(resp, [for |-> i, code |-> 101, close |-> FALSE]) /\ pc' = "session"
                  /\ used' = early
             ELSE /\ resp' = Append(resp, [for |-> i, code |-> IF ~R.asks \/ R.copes THEN 200 ELSE IF ~R.get THEN 405 ELSE 400,
                                           close |-> R.asks /\ ~R.copes])
                  /\ mode' = (IF R.asks /\ Bug = "mode" THEN "ws" ELSE "http")
                  /\ pc' = (IF R.asks /\ ~R.copes THEN "closed" ELSE "read")
                  /\ UNCHANGED used
          /\ got' = got \cup {i} /\ i' = i + 1 /\ UNCHANGED <<reqs, early>>
Next == Read \/ Late \/ Handle
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Switched(k) == \E j \in DOMAIN resp : resp[j].for = k /\ resp[j].code = 101
Right == \A k \in got : Switched(k) <=> (reqs[k].asks /\ reqs[k].get /\ reqs[k].up /\ reqs[k].key /\ ~reqs[k].early)
NoEarly == ~used
One == \A j \in DOMAIN resp : resp[j].for = j
LastSwitch == \A j \in DOMAIN resp : (resp[j].code = 101 \/ resp[j].close) => j = Len(resp)
Coped == mode = "ws" => resp # <<>> /\ resp[Len(resp)].code = 101
(* a refused upgrade that the handler copes with leaves the connection in use *)
Goes == <>(pc \in {"session", "closed"} \/ i > N)
=============================================================================
