---------------------------- MODULE ServerTrace -----------------------------
(* Conformance of recorded runs of whole servers with many clients.  What     *)
(* clients and handlers see bounds the set of connections that Server.tla     *)
(* calls served: from below by those that have reached a handler and have     *)
(* no reason to end, from above by those not known to be over.  Events:       *)
(*   made/rejected s n   a server with limit n was (not) started              *)
(*   open c s, noconn c, bye c, eof c   the client connects, can't, leaves,   *)
(*                       sees the end                                         *)
(*   ask c t, enter t, leave t, resp c code t, stream c   requests, handlers  *)
(*                       and responses, by the token of the request           *)
(*   shut/await/kill s, shutx/awaitx/killx s   calls and their returns        *)
(*   settle              everything that was on its way out is gone           *)
(*   fault n             the system refuses the next n threads                *)
(*   fds n m             n descriptors are left, m are needed                 *)
(*   stormed g b l       clients that checked their own answers: good, wrong, *)
(*                       lost                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l,
          srv,      \* server -> [st, max]; st: up, ending, ended, gone
          cn,       \* connection -> [srv, st, q, left, strm, late, sure, always, ever]; st: new, served, over, done
          tk,       \* token -> [c, st]; st: asked, in, out
          faults
vars == <<t, l, srv, cn, tk, faults>>
T == Traces[t]
Ev == T.ev[l]
IsEv(e) == l <= Len(T.ev) /\ Ev.e = e
Step == /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(T.ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
Empty == [x \in {} |-> x]
Init == t \in 1..Len(Traces) /\ l = 1 /\ srv = Empty /\ cn = Empty /\ tk = Empty /\ faults = 0
Set(f, k, v) == (k :> v) @@ f
(* what the request with this token is about; given with the trace *)
Req(x) == T.reqs[x]
Stopping(s) == srv[s].st # "up"
Of(s) == {c \in DOMAIN cn : cn[c].srv = s}
(* possibly being served *)
Maybe(c) == cn[c].st # "done"
(* bookkeeping: connections that have not been decided yet remember who was served all along and who ever was *)
Upd(f) == [c \in DOMAIN f |-> IF f[c].st # "new" THEN f[c]
             ELSE [f[c] EXCEPT !.always = {d \in @ : d \in DOMAIN f /\ f[d].sure},
                               !.ever = @ \cup {d \in DOMAIN f : d # c /\ f[d].srv = f[c].srv /\ f[d].st # "done"}]]
(* certainly being served: reached a handler and nothing has happened since that would end it *)
SureIn(f, c, ktok, sr) == /\ f[c].st = "served" /\ ~f[c].left /\ sr[f[c].srv].st = "up"
                          /\ (T.lax => \E i \in 1..Len(f[c].q) : ktok[f[c].q[i]].st = "in")
                          /\ \A i \in 1..Len(f[c].q) : Req(f[c].q[i]).kind = "keep"
Mark(f, ktok, sr) == Upd([c \in DOMAIN f |-> [f[c] EXCEPT !.sure = SureIn(f, c, ktok, sr)]])
(* --- servers *)
Made == /\ IsEv("made") /\ (Ev.n = 0 \/ Ev.n >= 50)
        /\ srv' = Set(srv, Ev.s, [st |-> "up", max |-> IF Ev.list THEN Ev.n ELSE 0])
        /\ UNCHANGED <<cn, tk, faults>> /\ Step
Rejected == IsEv("rejected") /\ Ev.n > 0 /\ Ev.n < 50 /\ UNCHANGED <<srv, cn, tk, faults>> /\ Step
Ending == /\ (IsEv("shut") \/ IsEv("kill"))
          /\ srv' = [srv EXCEPT ![Ev.s].st = IF @ = "up" THEN "ending" ELSE @]
          /\ cn' = Mark(cn, tk, srv') /\ UNCHANGED <<tk, faults>> /\ Step
Await == IsEv("await") /\ UNCHANGED <<srv, cn, tk, faults>> /\ Step
Running(f, c) == \E i \in 1..Len(f[c].q) : tk[f[c].q[i]].st = "in"
Shutx == /\ IsEv("shutx") /\ srv' = [srv EXCEPT ![Ev.s].st = IF @ = "ending" THEN "ended" ELSE @]
         /\ cn' = [c \in DOMAIN cn |-> IF cn[c].srv = Ev.s /\ srv[Ev.s].st = "ending"
                                       THEN [cn[c] EXCEPT !.late = IF Running(cn, c) THEN 0 ELSE 1] ELSE cn[c]]
         /\ UNCHANGED <<tk, faults>> /\ Step
(* everything of the server is over when these calls return *)
Idle(s) == \A x \in DOMAIN tk : (cn[tk[x].c].srv = s) => tk[x].st # "in"
Awaitx == /\ IsEv("awaitx") /\ Stopping(Ev.s) /\ Idle(Ev.s)
          /\ srv' = [srv EXCEPT ![Ev.s].st = "gone"] /\ UNCHANGED <<cn, tk, faults>> /\ Step
Killx == /\ IsEv("killx") /\ Idle(Ev.s)
         /\ srv' = [srv EXCEPT ![Ev.s].st = "gone"] /\ UNCHANGED <<cn, tk, faults>> /\ Step
(* --- clients *)
Open == /\ IsEv("open")
        /\ cn' = Mark(Set(cn, Ev.c, [srv |-> Ev.s, st |-> "new", q |-> <<>>, left |-> FALSE, strm |-> FALSE, sure |-> FALSE,
                                     late |-> IF srv[Ev.s].st \in {"ended", "gone"} THEN 0 ELSE 1,
                                     always |-> {d \in Of(Ev.s) : cn[d].sure}, ever |-> {d \in Of(Ev.s) : Maybe(d)}]), tk, srv)
        /\ UNCHANGED <<srv, tk, faults>> /\ Step
NoConn == /\ IsEv("noconn") /\ Stopping(cn[Ev.c].srv) /\ cn' = Mark([cn EXCEPT ![Ev.c].st = "done"], tk, srv)
          /\ UNCHANGED <<srv, tk, faults>> /\ Step
Bye == /\ IsEv("bye") /\ cn' = Mark([cn EXCEPT ![Ev.c].left = TRUE], tk, srv)
       /\ UNCHANGED <<srv, tk, faults>> /\ Step
Ask == /\ IsEv("ask") /\ tk' = Set(tk, Ev.t, [c |-> Ev.c, st |-> "asked"])
       /\ cn' = Mark([cn EXCEPT ![Ev.c].q = Append(@, Ev.t)], tk', srv) /\ UNCHANGED <<srv, faults>> /\ Step
(* --- requests reach handlers once, in order, on connections that are served *)
Enter == /\ IsEv("enter") /\ Ev.t \in DOMAIN tk /\ tk[Ev.t].st = "asked" /\ Req(Ev.t).runs
         /\ LET c == tk[Ev.t].c IN
            /\ cn[c].st \in {"new", "served"} /\ cn[c].q # <<>>
            /\ \A i \in 1..Len(cn[c].q) : (cn[c].q[i] = Ev.t) => \A j \in 1..(i - 1) : tk[cn[c].q[j]].st = "out" \/ ~Req(cn[c].q[j]).runs
            /\ srv[cn[c].srv].st # "gone"
            /\ (srv[cn[c].srv].st = "ended" => cn[c].late > 0)
            /\ (cn[c].st = "new" /\ srv[cn[c].srv].max > 0) => Cardinality(cn[c].always) < srv[cn[c].srv].max
            /\ tk' = [tk EXCEPT ![Ev.t].st = "in"]
            /\ cn' = Mark([cn EXCEPT ![c].st = "served", ![c].late = IF srv[cn[c].srv].st = "ended" THEN @ - 1 ELSE @], tk', srv)
         /\ UNCHANGED <<srv, faults>> /\ Step
Leave == /\ IsEv("leave") /\ tk[Ev.t].st = "in" /\ srv[cn[tk[Ev.t].c].srv].st # "gone"
         /\ tk' = [tk EXCEPT ![Ev.t].st = "out"] /\ cn' = Mark(cn, tk', srv) /\ UNCHANGED <<srv, faults>> /\ Step
(* the answer to the oldest request, after its handler is done *)
Resp == /\ IsEv("resp") /\ cn[Ev.c].st \in {"new", "served"} /\ cn[Ev.c].q # <<>>
        /\ LET x == Head(cn[Ev.c].q) IN
           /\ Req(x).code = Ev.code /\ (Req(x).named => Ev.t = x) /\ (Req(x).runs => tk[x].st = "out")
           /\ cn' = Mark([cn EXCEPT ![Ev.c].q = Tail(@), ![Ev.c].st = "served", ![Ev.c].left = @ \/ Req(x).kind = "end"], tk, srv)
        /\ UNCHANGED <<srv, tk, faults>> /\ Step
Stream == /\ IsEv("stream") /\ cn[Ev.c].q # <<>> /\ Req(Head(cn[Ev.c].q)).kind = "stream" /\ tk[Head(cn[Ev.c].q)].st \in {"in", "out"}
          /\ cn' = [cn EXCEPT ![Ev.c].strm = TRUE] /\ UNCHANGED <<srv, tk, faults>> /\ Step
(* the end: a request that a handler has taken up is answered before it *)
Full(c) == srv[cn[c].srv].max > 0 /\ Cardinality(cn[c].ever) >= srv[cn[c].srv].max
Eof == /\ IsEv("eof") /\ cn[Ev.c].st \in {"new", "served"}
       /\ (IF cn[Ev.c].st = "new" /\ ~cn[Ev.c].left /\ ~Stopping(cn[Ev.c].srv) /\ ~T.lax /\ ~Full(Ev.c)
           THEN faults > 0 /\ faults' = faults - 1 ELSE UNCHANGED faults)
       /\ (~cn[Ev.c].left /\ ~cn[Ev.c].strm) => \A i \in 1..Len(cn[Ev.c].q) : tk[cn[Ev.c].q[i]].st = "asked"
       /\ cn' = Mark([cn EXCEPT ![Ev.c].st = IF @ = "new" THEN "done" ELSE "over", ![Ev.c].left = TRUE], tk, srv)
       /\ UNCHANGED <<srv, tk>> /\ Step
Settle == /\ IsEv("settle")
          /\ cn' = Mark([c \in DOMAIN cn |-> IF cn[c].st = "over" \/ (cn[c].left /\ ~Running(cn, c) /\ cn[c].st # "done") THEN [cn[c] EXCEPT !.st = "done"] ELSE cn[c]], tk, srv)
          /\ UNCHANGED <<srv, tk, faults>> /\ Step
Fault == IsEv("fault") /\ faults' = faults + Ev.n /\ UNCHANGED <<srv, cn, tk>> /\ Step
Fds == IsEv("fds") /\ Ev.n <= Ev.m /\ UNCHANGED <<srv, cn, tk, faults>> /\ Step
Stormed == IsEv("stormed") /\ Ev.b = 0 /\ (Ev.l = 0 \/ T.lossy) /\ UNCHANGED <<srv, cn, tk, faults>> /\ Step
Next == Made \/ Rejected \/ Ending \/ Await \/ Shutx \/ Awaitx \/ Killx \/ Open \/ NoConn \/ Bye \/ Ask \/ Enter \/ Leave \/ Resp \/ Stream
        \/ Eof \/ Settle \/ Fault \/ Fds \/ Stormed
=============================================================================
