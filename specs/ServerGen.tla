------------------------------ MODULE ServerGen ------------------------------
(* Prints behaviours of Server: what clients, handlers and the killer do and  *)
(* what the server is then bound to show, in order.  In a calm behaviour the  *)
(* clients let the server finish what it has to do before they go on.         *)
EXTENDS Server, IOUtils
From == atoi(IOEnv.FROM)
Size == atoi(IOEnv.SIZE)
Calm == IOEnv.CALM = "1"
Record(a, c) == hist' = Append(hist, <<a, c>>)
Show == IF Len(hist) >= Size \/ kill = "gone" THEN PrintT("HIST " \o ToString(hist)) ELSE TRUE
Quiet == /\ svc \in {"accept", "fin"} /\ (svc = "accept" => \A c \in Conns : phase[c] # "backlog")
         /\ \A c \in Conns : phase[c] = "run" => (asks[c] = 0 /\ ~flag[c])
(* the system runs out of threads now and then *)
Fault == \E c \in Conns : phase[c] = "taken" /\ phase'[c] = "lost" /\ ~term
GenSvc == Svc /\ (Fault => (Len(hist) % 4) = 3)
Begins == \E c \in Conns : Begin(c) \/ Stop(c)
Clients == \E c \in Conns : Open(c) \/ Ask(c) \/ Finish(c) \/ Leave(c)
GenNext == /\ Len(hist) < Size /\ kill # "gone"
           /\ \/ GenSvc \/ Kill \/ Begins
              \/ (Calm => Quiet) /\ Clients
              \/ (Calm => Quiet) /\ Len(hist) >= From /\ Term
=============================================================================
