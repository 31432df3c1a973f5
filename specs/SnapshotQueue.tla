---------------------------- MODULE SnapshotQueue ----------------------------
(* The two threads of a snapshot operation and the queue between them.        *)
(* Saving: the caller produces the files, the worker writes them.             *)
(* Loading: the worker reads the files, the caller stores them.               *)
(* Either thread's step may be delayed arbitrarily; the worker may fail       *)
(* anywhere.  Checked: the call always ends; when it reports success, every   *)
(* file has arrived exactly once and in order; a failure is never a success.  *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N,                    \* number of files
          Mode,                 \* "save" or "load"
          ClosesOnExit          \* the worker closes the queue however it ends
VARIABLES queue, done, sent, got, prod, cons, wres, call
vars == <<queue, done, sent, got, prod, cons, wres, call>>
(* prod/cons: program counters; in "save" the consumer is the worker, in "load" the producer is *)
Init == queue = <<>> /\ done = FALSE /\ sent = 0 /\ got = <<>> /\ prod = "wait" /\ cons = "wait" /\ wres = "running" /\ call = "running"
WorkerIs(x) == (Mode = "save" /\ x = "cons") \/ (Mode = "load" /\ x = "prod")
(* the producer of a save waits until the queue has been taken; the reader of a load just pushes *)
ProdWait == /\ prod = "wait" /\ sent < N
            /\ IF Mode = "save"
               THEN IF done THEN prod' = (IF queue = <<>> THEN "push" ELSE "close")
                    ELSE queue = <<>> /\ prod' = "push"
               ELSE prod' = "push"
            /\ UNCHANGED <<queue, done, sent, got, cons, wres, call>>
ProdPush == prod = "push" /\ queue' = Append(queue, sent + 1) /\ sent' = sent + 1 /\ prod' = "wait" /\ UNCHANGED <<done, got, cons, wres, call>>
ProdAll == prod = "wait" /\ sent = N /\ prod' = "close" /\ UNCHANGED <<queue, done, sent, got, cons, wres, call>>
ProdClose == prod = "close" /\ done' = TRUE /\ prod' = "end" /\ wres' = (IF Mode = "load" /\ wres = "running" THEN "ok" ELSE wres)
             /\ UNCHANGED <<queue, sent, got, cons, call>>
(* await: leaves its loop on done or a non-empty queue, then looks at the queue again *)
ConsWake == cons = "wait" /\ (done \/ queue # <<>>) /\ cons' = "look" /\ UNCHANGED <<queue, done, sent, got, prod, wres, call>>
ConsTake == /\ cons = "look" /\ queue # <<>>
            /\ got' = Append(got, Head(queue)) /\ queue' = Tail(queue) /\ cons' = "wait"
            /\ UNCHANGED <<done, sent, prod, wres, call>>
ConsEnd == /\ cons = "look" /\ queue = <<>> /\ cons' = "end"
           /\ wres' = (IF Mode = "save" /\ wres = "running" THEN "ok" ELSE wres)
           /\ UNCHANGED <<queue, done, sent, got, prod, call>>
WorkerFails == /\ wres = "running"
               /\ \/ WorkerIs("cons") /\ cons \in {"wait", "look"} /\ cons' = "end" /\ UNCHANGED prod
                  \/ WorkerIs("prod") /\ prod \in {"wait", "push"} /\ prod' = "end" /\ UNCHANGED cons
               /\ wres' = "failed" /\ done' = (done \/ ClosesOnExit)
               /\ UNCHANGED <<queue, sent, got, call>>
(* the caller joins the worker and reports *)
Return == /\ call = "running" /\ prod = "end" /\ cons = "end" /\ wres # "running"
          /\ call' = (IF wres = "ok" THEN "ok" ELSE "threw") /\ UNCHANGED <<queue, done, sent, got, prod, cons, wres>>
Next == ProdWait \/ ProdPush \/ ProdAll \/ ProdClose \/ ConsWake \/ ConsTake \/ ConsEnd \/ WorkerFails \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(ProdWait) /\ WF_vars(ProdPush) /\ WF_vars(ProdAll) /\ WF_vars(ProdClose)
        /\ WF_vars(ConsWake) /\ WF_vars(ConsTake) /\ WF_vars(ConsEnd) /\ WF_vars(Return)
Complete == call = "ok" => got = [i \in 1..N |-> i]
FailureReported == (call # "running" /\ wres = "failed") => call = "threw"
NoDup == \A i, j \in DOMAIN got : i # j => got[i] # got[j]
Ends == <>(call # "running")
=============================================================================
