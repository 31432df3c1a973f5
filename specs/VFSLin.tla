------------------------------- MODULE VFSLin -------------------------------
(* Linearizability of concurrent histories of one virtual filesystem (V06).     *)
(* Every call has its effect in one moment between call and return, except that *)
(* loading a snapshot has one such moment for each of its files.                *)
(* Events: call [th, o], ret [th, res], contents [m, files, size], disk [path, m]*)
EXTENDS VFSOps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
Idle == [st |-> "idle"]
VARIABLES t, l, mem, pend, disk
vars == <<t, l, mem, pend, disk>>
Ev == Traces[t].ev[l]
Threads == 0..7
Step == /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t].ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
IsEv(e) == l <= Len(Traces[t].ev) /\ Ev.e = e
Init == t \in 1..Len(Traces) /\ l = 1 /\ mem = NoFiles /\ pend = [th \in Threads |-> Idle] /\ disk = NoFiles
F(o) == [c |-> o.c, n |-> o.n, cr |-> 0, mo |-> 0]
Effect(o) == CASE o.op = "write" -> PutFile(mem, o.p, F(o))
               [] o.op = "remove" -> Remove(mem, o.p)
               [] o.op = "move" -> IF MoveOk(mem, o.p) THEN Move(mem, o.p, o.q) ELSE mem
               [] OTHER -> mem
Result(o) == CASE o.op = "move" -> [k |-> IF MoveOk(mem, o.p) THEN "ok" ELSE "threw"]
               [] o.op = "read" -> IF Has(mem, o.p) THEN [k |-> "file", name |-> Low(o.p), c |-> File(mem, o.p).c, n |-> File(mem, o.p).n] ELSE [k |-> "none"]
               [] o.op = "info" -> IF Has(mem, o.p) THEN [k |-> "info", name |-> Low(o.p), n |-> File(mem, o.p).n] ELSE [k |-> "none"]
               [] o.op = "list" -> [k |-> "list", r |-> {<<x, mem[x].n>> : x \in DOMAIN mem}]
               [] OTHER -> [k |-> "ok"]
Same(a, b) == a.k = b.k /\ CASE a.k = "file" -> a.name = b.name /\ a.c = b.c /\ a.n = b.n
                            [] a.k = "info" -> a.name = b.name /\ a.n = b.n
                            [] a.k = "list" -> a.r = {<<b.r[i][1], b.r[i][2]>> : i \in DOMAIN b.r} /\ Len(b.r) = Cardinality(a.r)
                            [] OTHER -> TRUE
Call == /\ IsEv("call") /\ pend[Ev.th].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.th] = IF Ev.o.op = "load" THEN [st |-> "loading", o |-> Ev.o, left |-> DOMAIN disk[Ev.o.path]]
                                           ELSE [st |-> "called", o |-> Ev.o]]
        /\ UNCHANGED <<mem, disk>> /\ Step
Lin(th) == /\ pend[th].st = "called" /\ l <= Len(Traces[t].ev)
           /\ LET o == pend[th].o IN
              /\ pend' = [pend EXCEPT ![th] = [st |-> "done", res |-> Result(o)]]
              /\ mem' = Effect(o)
              /\ disk' = (IF o.op = "save" THEN [x \in DOMAIN disk \cup {o.path} |-> IF x = o.path THEN mem ELSE disk[x]] ELSE disk)
           /\ UNCHANGED <<t, l>>
LoadOne(th) == /\ pend[th].st = "loading" /\ l <= Len(Traces[t].ev)
               /\ \E x \in pend[th].left :
                    /\ mem' = PutFile(mem, x, disk[pend[th].o.path][x])
                    /\ pend' = [pend EXCEPT ![th].left = @ \ {x}]
               /\ UNCHANGED <<t, l, disk>>
Ret == /\ IsEv("ret")
       /\ LET p == pend[Ev.th] IN \/ p.st = "done" /\ Same(p.res, Ev.res)
                                  \/ p.st = "loading" /\ p.left = {} /\ Ev.res.k = "ok"
       /\ pend' = [pend EXCEPT ![Ev.th] = Idle] /\ UNCHANGED <<mem, disk>> /\ Step
AsMap(s) == [x \in {s[i].name : i \in DOMAIN s} |-> LET f == s[CHOOSE i \in DOMAIN s : s[i].name = x] IN [c |-> f.c, n |-> f.n, cr |-> 0, mo |-> 0]]
Contents == IsEv("contents") /\ AsMap(Ev.m) = mem /\ Ev.files = TotalFiles(mem) /\ Ev.size = TotalSize(mem) /\ UNCHANGED <<mem, pend, disk>> /\ Step
Disk == IsEv("disk") /\ AsMap(Ev.m) = disk[Ev.path] /\ UNCHANGED <<mem, pend, disk>> /\ Step
Clean == IsEv("clean") /\ UNCHANGED <<mem, pend, disk>> /\ Step
Next == Call \/ (\E th \in Threads : Lin(th) \/ LoadOne(th)) \/ Ret \/ Contents \/ Disk \/ Clean
=============================================================================
