-------------------------------- MODULE Server --------------------------------
(* The server in thread-list mode: the accepting thread, one worker for each *)
(* connection, the list of connections with its lock and counter, and the    *)
(* thread that shuts the server down and destroys it.  Clients connect, send *)
(* requests and leave as they like; thread creation can fail.                *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Conns, Max, Bug
ASSUME Max \in Nat
VARIABLES phase,    \* of each connection: out, backlog, taken, run, busy, over, refused, lost
          asks,     \* requests of each connection that are there to be read
          flag,     \* has its worker been told to stop
          list,     \* connections in the list
          cnt, svc, cur, lock, term, lsn, kill, full, hist
vars == <<phase, asks, flag, list, cnt, svc, cur, lock, term, lsn, kill, full, hist>>
None == 0
Init == /\ phase = [c \in Conns |-> "out"] /\ asks = [c \in Conns |-> 0] /\ flag = [c \in Conns |-> FALSE]
        /\ list = {} /\ cnt = 0 /\ svc = "loop" /\ cur = None /\ lock = "free" /\ term = FALSE /\ lsn = TRUE
        /\ kill = "no" /\ full = FALSE /\ hist = <<>>
Alive(c) == phase[c] \in {"run", "busy"}
Serving == {c \in Conns : Alive(c)}
Note(a, c) == hist' = hist      \* overridden by the generating configuration
(* ---- clients *)
Open(c) == /\ phase[c] = "out" /\ phase' = [phase EXCEPT ![c] = IF lsn THEN "backlog" ELSE "lost"] /\ Note("open", c)
           /\ UNCHANGED <<asks, flag, list, cnt, svc, cur, lock, term, lsn, kill, full>>
Ask(c) == /\ phase[c] \in {"backlog", "taken", "run", "busy"} /\ asks[c] < 2 /\ asks' = [asks EXCEPT ![c] = @ + 1] /\ Note("ask", c)
          /\ UNCHANGED <<phase, flag, list, cnt, svc, cur, lock, term, lsn, kill, full>>
(* ---- the accepting thread *)
S(from, to) == svc = from /\ svc' = to
Loop == /\ S("loop", IF term \/ ~lsn THEN "fin" ELSE "accept")
        /\ UNCHANGED <<phase, asks, flag, list, cnt, cur, lock, term, lsn, kill, full, hist>>
Accept(c) == /\ S("accept", "got") /\ phase[c] = "backlog" /\ phase' = [phase EXCEPT ![c] = "taken"] /\ cur' = c
             /\ UNCHANGED <<asks, flag, list, cnt, lock, term, lsn, kill, full, hist>>
AcceptEnds == /\ svc = "accept" /\ ~lsn /\ svc' = "fin" /\ UNCHANGED <<phase, asks, flag, list, cnt, cur, lock, term, lsn, kill, full, hist>>
Lock == /\ S("got", "locked") /\ (Bug = "nolock" \/ lock = "free") /\ lock' = (IF Bug = "nolock" THEN lock ELSE "svc")
        /\ UNCHANGED <<phase, asks, flag, list, cnt, cur, term, lsn, kill, full, hist>>
Unlock == lock' = (IF Bug = "nolock" THEN lock ELSE "free")
Drop == /\ svc = "locked" /\ term /\ Bug # "notcheck" /\ svc' = "fin" /\ phase' = [phase EXCEPT ![cur] = "lost"] /\ cur' = None
        /\ Unlock /\ UNCHANGED <<asks, flag, list, cnt, term, lsn, kill, full, hist>>
Done == {c \in list : phase[c] = "over"}
(* collect what is done before looking at the limit *)
Collect == /\ svc = "locked" /\ (term => Bug = "notcheck") /\ svc' = "decide"
           /\ (IF Bug # "nogc" /\ Max > 0 /\ cnt >= Max THEN list' = list \ Done /\ cnt' = cnt - Cardinality(Done) ELSE UNCHANGED <<list, cnt>>)
           /\ full' = (Cardinality(Serving) >= Max)
           /\ UNCHANGED <<phase, asks, flag, cur, lock, term, lsn, kill, hist>>
Over == Max > 0 /\ cnt >= Max + (IF Bug = "offbyone" THEN 1 ELSE 0)
Refuse == /\ svc = "decide" /\ Over /\ svc' = "loop" /\ phase' = [phase EXCEPT ![cur] = "refused"] /\ cur' = None /\ Note("refuse", cur)
          /\ Unlock /\ UNCHANGED <<asks, flag, list, cnt, term, lsn, kill, full>>
Spawn == /\ svc = "decide" /\ ~Over /\ svc' = "loop" /\ phase' = [phase EXCEPT ![cur] = "run"] /\ cur' = None
         /\ list' = list \cup {cur} /\ cnt' = cnt + 1
         /\ Unlock /\ UNCHANGED <<asks, flag, term, lsn, kill, full, hist>>
(* the operating system is out of threads *)
NoThread == /\ svc = "decide" /\ ~Over /\ svc' = (IF Bug = "threadfatal" THEN "fin" ELSE "loop") /\ phase' = [phase EXCEPT ![cur] = "lost"] /\ cur' = None /\ Note("nothread", cur)
            /\ Unlock /\ UNCHANGED <<asks, flag, list, cnt, term, lsn, kill, full>>
(* ---- workers *)
Begin(c) == /\ phase[c] = "run" /\ asks[c] > 0 /\ (~flag[c]) /\ phase' = [phase EXCEPT ![c] = "busy"] /\ asks' = [asks EXCEPT ![c] = @ - 1] /\ Note("begin", c)
            /\ UNCHANGED <<flag, list, cnt, svc, cur, lock, term, lsn, kill, full>>
Finish(c) == /\ phase[c] = "busy" /\ phase' = [phase EXCEPT ![c] = IF flag[c] THEN "over" ELSE "run"] /\ Note("rel", c)
             /\ UNCHANGED <<asks, flag, list, cnt, svc, cur, lock, term, lsn, kill, full>>
(* told to stop, timed out, the client left or an error occurred *)
Stop(c) == /\ phase[c] = "run" /\ flag[c] /\ phase' = [phase EXCEPT ![c] = "over"] /\ UNCHANGED <<asks, flag, list, cnt, svc, cur, lock, term, lsn, kill, full, hist>>
Leave(c) == /\ phase[c] = "run" /\ asks[c] = 0 /\ phase' = [phase EXCEPT ![c] = "over"] /\ Note("leave", c)
            /\ UNCHANGED <<asks, flag, list, cnt, svc, cur, lock, term, lsn, kill, full>>
(* ---- shutting down *)
K(from, to) == kill = from /\ kill' = to
Term == K("no", "flagging") /\ term' = TRUE /\ Note("kill", None) /\ UNCHANGED <<phase, asks, flag, list, cnt, svc, cur, lock, lsn, full>>
FlagAll == /\ K("flagging", "stopping") /\ (Bug = "nolock" \/ lock = "free") /\ flag' = [c \in Conns |-> flag[c] \/ c \in list]
           /\ UNCHANGED <<phase, asks, list, cnt, svc, cur, lock, term, lsn, full, hist>>
StopListen == /\ K("stopping", "waiting") /\ lsn' = FALSE
              /\ phase' = [c \in Conns |-> IF phase[c] = "backlog" THEN "lost" ELSE phase[c]]
              /\ UNCHANGED <<asks, flag, list, cnt, svc, cur, lock, term, full, hist>>
Join == /\ K("waiting", "joining") /\ svc = "fin" /\ UNCHANGED <<phase, asks, flag, list, cnt, svc, cur, lock, term, lsn, full, hist>>
Gone == /\ K("joining", "gone") /\ (Bug = "nojoin" \/ \A c \in list : phase[c] = "over")
        /\ UNCHANGED <<phase, asks, flag, list, cnt, svc, cur, lock, term, lsn, full, hist>>
Svc == Loop \/ (\E c \in Conns : Accept(c)) \/ AcceptEnds \/ Lock \/ Drop \/ Collect \/ Refuse \/ Spawn \/ NoThread
Kill == FlagAll \/ StopListen \/ Join \/ Gone
Next == (\E c \in Conns : Open(c) \/ Ask(c) \/ Begin(c) \/ Finish(c) \/ Stop(c) \/ Leave(c)) \/ Svc \/ Term \/ Kill
Fair == /\ WF_vars(Svc) /\ WF_vars(Kill)
        /\ \A c \in Conns : WF_vars(Finish(c)) /\ WF_vars(Stop(c)) /\ WF_vars(Begin(c))
Spec == Init /\ [][Next]_vars /\ Fair
(* ---- what it guarantees *)
Limit == Max > 0 => Cardinality(Serving) <= Max
(* a connection is only turned away when the server was full after the collection *)
Fullness == \A c \in Conns : (svc = "decide" /\ Over) => full
Consistent == cnt = Cardinality(list)
AfterGone == kill = "gone" => Serving = {}
NoLateServe == [][\A c \in Conns : (phase[c] = "backlog" /\ term) => phase'[c] \in {"backlog", "taken", "lost"}]_vars
(* it stays up: only a shutdown ends the accepting thread *)
StaysUp == svc = "fin" => term
Ends == (kill # "no") ~> (kill = "gone")
Served == \A c \in Conns : (phase[c] = "backlog") ~> (phase[c] \notin {"backlog", "taken"})
=============================================================================
