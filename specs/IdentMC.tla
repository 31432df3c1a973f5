------------------------------ MODULE IdentMC ------------------------------
(* Connections served by threads of their own; requests may have been sent ahead*)
EXTENDS Ident
CONSTANTS N, Steps, Bug
VARIABLES next, conns, pc, cur, queue, glob
vars == <<next, conns, pc, cur, queue, glob>>
W == 1..N
Name(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Fresh == Name(next)
Init == /\ next = 1 /\ conns = [i \in W |-> [host |-> "h", port |-> i, cid |-> "", steps |-> <<>>, last |-> <<>>]]
        /\ pc = [i \in W |-> "new"] /\ cur = [i \in W |-> ""] /\ queue = [i \in W |-> 0] /\ glob = ""
Accept(i) == /\ pc[i] = "new" /\ pc' = [pc EXCEPT ![i] = "idle"] /\ conns' = [conns EXCEPT ![i].cid = Fresh] /\ next' = next + 1
             /\ UNCHANGED <<cur, queue, glob>>
Send(i) == /\ pc[i] # "over" /\ queue[i] + Len(conns[i].steps) < Steps /\ queue' = [queue EXCEPT ![i] = @ + 1] /\ UNCHANGED <<next, conns, pc, cur, glob>>
Read(i) == /\ pc[i] = "idle" /\ queue[i] > 0 /\ queue' = [queue EXCEPT ![i] = @ - 1]
           /\ cur' = [cur EXCEPT ![i] = IF Bug = "once" /\ @ # "" THEN @ ELSE Fresh] /\ glob' = Fresh /\ next' = next + 1
           /\ conns' = [conns EXCEPT ![i].steps = Append(@, [told |-> <<>>, resp |-> <<>>])]
           /\ pc' = [pc EXCEPT ![i] = "read"]
Set(i, f, x) == conns' = [conns EXCEPT ![i].steps[Len(conns[i].steps)][f] = <<x>>]
Handle(i) == /\ pc[i] = "read" /\ pc' = [pc EXCEPT ![i] = "handled"]
             /\ Set(i, "told", [cid |-> conns[i].cid, rid |-> cur[i], host |-> conns[i].host, port |-> conns[i].port])
             /\ UNCHANGED <<next, cur, queue, glob>>
(* own: the handler put something under that name *)
Respond(i, own) == /\ pc[i] = "handled" /\ pc' = [pc EXCEPT ![i] = "idle"]
                   /\ LET rid == CASE Bug = "global" -> glob [] Bug = "fresh" -> Fresh [] OTHER -> cur[i] IN
                      Set(i, "resp", [xid |-> IF own /\ Bug = "own" THEN <<"mine">> ELSE <<Label(conns[i].cid, rid)>>])
                   /\ next' = (IF Bug = "fresh" THEN next + 1 ELSE next) /\ UNCHANGED <<cur, queue, glob>>
Refuse(i) == /\ pc[i] = "idle" /\ pc' = [pc EXCEPT ![i] = "over"] /\ next' = next + 1
             /\ conns' = [conns EXCEPT ![i].last = <<[xid |-> <<Label(conns[i].cid, Fresh)>>]>>] /\ UNCHANGED <<cur, queue, glob>>
Close(i) == /\ pc[i] \in {"idle", "read"} /\ pc' = [pc EXCEPT ![i] = "over"] /\ UNCHANGED <<next, conns, cur, queue, glob>>
Next == \E i \in W : Accept(i) \/ Send(i) \/ Read(i) \/ Handle(i) \/ Respond(i, TRUE) \/ Respond(i, FALSE) \/ Refuse(i) \/ Close(i)
Spec == Init /\ [][Next]_vars
Traced == (\A i \in W : ConnOk(conns[i])) /\ Apart(conns)
=============================================================================
