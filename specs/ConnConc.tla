------------------------------ MODULE ConnConc ------------------------------
(* One connection used by a reader, a writer and two threads that end it,      *)
(* while another connection is made that gets the lowest free handle. Nobody   *)
(* may pass a handle to the system that is not this connection's any more.     *)
EXTENDS Integers, FiniteSets
CONSTANTS Bug, MaxData
VARIABLES handle, owner, down, rl, wl, pc, h, data, stray, twice, other
vars == <<handle, owner, down, rl, wl, pc, h, data, stray, twice, other>>
Enders == {"e1", "e2"}
T == {"r", "w"} \cup Enders
Init == /\ handle = 1 /\ owner = [i \in 1..2 |-> IF i = 1 THEN "mine" ELSE "none"] /\ down = FALSE
        /\ rl = "" /\ wl = "" /\ pc = [t \in T |-> "idle"] /\ h = [t \in T |-> 0] /\ data = 0
        /\ stray = FALSE /\ twice = FALSE /\ other = FALSE
Pc(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
(* ---- the peer, and somebody who opens another connection *)
Peer == data < MaxData /\ ~down /\ data' = data + 1 /\ UNCHANGED <<handle, owner, down, rl, wl, pc, h, stray, twice, other>>
Other == /\ ~other /\ other' = TRUE
         /\ LET F == {i \in 1..2 : owner[i] = "none"} IN F # {} /\ owner' = [owner EXCEPT ![CHOOSE i \in F : \A j \in F : i <= j] = "other"]
         /\ UNCHANGED <<handle, down, rl, wl, pc, h, data, stray, twice>>
(* ---- reading and writing *)
RLock == Pc("r", "idle", "locked") /\ rl = "" /\ rl' = "r" /\ UNCHANGED <<handle, owner, down, wl, h, data, stray, twice, other>>
RLoad == pc["r"] = "locked" /\ h' = [h EXCEPT !["r"] = handle] /\ pc' = [pc EXCEPT !["r"] = IF handle = 0 THEN "gone" ELSE "call"]
         /\ UNCHANGED <<handle, owner, down, rl, wl, data, stray, twice, other>>
RCall == /\ pc["r"] = "call" /\ (owner[h["r"]] # "mine" \/ down \/ data > 0)
         /\ stray' = (stray \/ owner[h["r"]] # "mine")
         /\ data' = (IF owner[h["r"]] = "mine" /\ data > 0 THEN data - 1 ELSE data)
         /\ pc' = [pc EXCEPT !["r"] = IF data > 0 THEN "back" ELSE "gone"]
         /\ UNCHANGED <<handle, owner, down, rl, wl, h, twice, other>>
RBack == \E to \in {<<"back", "idle">>, <<"gone", "out">>} : Pc("r", to[1], to[2]) /\ rl' = "" /\ UNCHANGED <<handle, owner, down, wl, h, data, stray, twice, other>>
WLock == Pc("w", "idle", "locked") /\ wl = "" /\ wl' = "w" /\ UNCHANGED <<handle, owner, down, rl, h, data, stray, twice, other>>
WLoad == pc["w"] = "locked" /\ h' = [h EXCEPT !["w"] = handle] /\ pc' = [pc EXCEPT !["w"] = IF handle = 0 THEN "gone" ELSE "call"]
         /\ UNCHANGED <<handle, owner, down, rl, wl, data, stray, twice, other>>
(* a write whose peer does not read only ends with the connection *)
WCall == /\ pc["w"] = "call" /\ (owner[h["w"]] # "mine" \/ down)
         /\ stray' = (stray \/ owner[h["w"]] # "mine") /\ pc' = [pc EXCEPT !["w"] = "gone"]
         /\ UNCHANGED <<handle, owner, down, rl, wl, h, data, twice, other>>
WBack == Pc("w", "gone", "out") /\ wl' = "" /\ UNCHANGED <<handle, owner, down, rl, h, data, stray, twice, other>>
(* ---- ending *)
Take(e) == /\ pc[e] = "idle" /\ h' = [h EXCEPT ![e] = handle]
           /\ handle' = (IF Bug = "noexchange" THEN handle ELSE 0)
           /\ pc' = [pc EXCEPT ![e] = IF handle = 0 THEN "out" ELSE "taken"]
           /\ UNCHANGED <<owner, down, rl, wl, data, stray, twice, other>>
Shut(e) == /\ Pc(e, "taken", "shut") /\ down' = (down \/ (Bug # "noshutdown" /\ owner[h[e]] = "mine"))
           /\ stray' = (stray \/ owner[h[e]] # "mine") /\ UNCHANGED <<handle, owner, rl, wl, h, data, twice, other>>
Close(e) == /\ Pc(e, "shut", "out") /\ (Bug = "rawclose" \/ (rl = "" /\ (Bug = "halflock" \/ wl = "")))
            /\ twice' = (twice \/ owner[h[e]] # "mine") /\ owner' = [owner EXCEPT ![h[e]] = "none"] /\ handle' = 0
            /\ UNCHANGED <<down, rl, wl, h, data, stray, other>>
Next == Peer \/ Other \/ RLock \/ RLoad \/ RCall \/ RBack \/ WLock \/ WLoad \/ WCall \/ WBack \/ \E e \in Enders : Take(e) \/ Shut(e) \/ Close(e)
Spec == Init /\ [][Next]_vars /\ WF_vars(RLoad) /\ WF_vars(RCall) /\ WF_vars(RBack) /\ WF_vars(WLoad) /\ WF_vars(WCall) /\ WF_vars(WBack)
        /\ \A e \in Enders : WF_vars(Shut(e)) /\ SF_vars(Close(e))
OnlyMine == ~stray
ClosedOnce == ~twice
(* who ends a connection gets done with it, and so does whoever was waiting in it *)
Over == \A e \in Enders : pc[e] = "taken" ~> pc[e] = "out"
Released == down ~> pc["r"] \in {"idle", "out"} /\ pc["w"] \in {"idle", "out"}
=============================================================================
