------------------------------ MODULE VFSTrace ------------------------------
(* Conformance of recorded filesystem sessions.  The content token of a file *)
(* is the sequence of tokens of its 512-byte blocks, zero padded, so that    *)
(* archives (Tar) and contents compare directly.                             *)
EXTENDS VFSOps, Tar, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l, m, disk, free
vars == <<t, l, m, disk, free>>
(* free: the contents are unknown (after a failed load) until they are listed *)
Ev == Traces[t].ev[l]
Step == /\ l' = l + 1 /\ t' = t
        /\ (IF Explain THEN PrintT("AT " \o ToString(l)) ELSE TRUE)
        /\ (IF l = Len(Traces[t].ev) THEN PrintT("ACC " \o ToString(t)) ELSE TRUE)
Expect(x) == IF Explain THEN PrintT("EXPECT " \o ToString(x)) ELSE TRUE
IsEv(e) == l <= Len(Traces[t].ev) /\ Ev.e = e
Init == t \in 1..Len(Traces) /\ l = 1 /\ m = NoFiles /\ disk = NoFiles /\ free = FALSE

Time(seen, kept) == kept = Unknown \/ seen = kept
(* a new, empty filesystem object *)
Fresh == IsEv("fresh") /\ m' = NoFiles /\ free' = FALSE /\ UNCHANGED disk /\ Step
EvWrite == IsEv("write") /\ ~free /\ m' = Write(m, Ev.p, Ev.c, Ev.n, Ev.now) /\ UNCHANGED <<disk, free>> /\ Step
EvRemove == IsEv("remove") /\ ~free /\ m' = Remove(m, Ev.p) /\ UNCHANGED <<disk, free>> /\ Step
EvMove == /\ IsEv("move") /\ ~free /\ Ev.ok = MoveOk(m, Ev.p)
          /\ m' = (IF Ev.ok THEN Move(m, Ev.p, Ev.q) ELSE m) /\ UNCHANGED <<disk, free>> /\ Step
EvRead == /\ IsEv("read") /\ ~free /\ Expect(IF Has(m, Ev.p) THEN <<File(m, Ev.p)>> ELSE <<>>)
          /\ IF Has(m, Ev.p)
             THEN LET f == File(m, Ev.p) IN
                  /\ Len(Ev.r) = 1 /\ Ev.r[1].name = Low(Ev.p) /\ Ev.r[1].c = f.c /\ Ev.r[1].n = f.n
                  /\ Time(Ev.r[1].cr, f.cr) /\ Ev.r[1].mo = f.mo
             ELSE Ev.r = <<>>
          /\ UNCHANGED <<m, disk, free>> /\ Step
EvInfo == /\ IsEv("info") /\ ~free /\ Expect(IF Has(m, Ev.p) THEN <<File(m, Ev.p)>> ELSE <<>>)
          /\ IF Has(m, Ev.p)
             THEN LET f == File(m, Ev.p) IN
                  /\ Len(Ev.r) = 1 /\ Ev.r[1].name = Low(Ev.p) /\ Ev.r[1].n = f.n
                  /\ Time(Ev.r[1].cr, f.cr) /\ Ev.r[1].mo = f.mo
             ELSE Ev.r = <<>>
          /\ UNCHANGED <<m, disk, free>> /\ Step
EvList == /\ IsEv("list") /\ ~free /\ Expect(m)
          /\ Len(Ev.r) = Cardinality(DOMAIN m)
          /\ {Ev.r[i].name : i \in DOMAIN Ev.r} = DOMAIN m
          /\ \A i \in DOMAIN Ev.r : LET f == m[Ev.r[i].name] IN
                Ev.r[i].n = f.n /\ Time(Ev.r[i].cr, f.cr) /\ Ev.r[i].mo = f.mo
          /\ UNCHANGED <<m, disk, free>> /\ Step
EvStats == /\ IsEv("stats") /\ ~free /\ Expect(<<TotalFiles(m), TotalSize(m)>>) /\ Ev.files = TotalFiles(m) /\ Ev.size = TotalSize(m)
           /\ UNCHANGED <<m, disk, free>> /\ Step

CanSave(path) == Supported(path) /\ \A x \in DOMAIN m : Storable(x)
PutDisk(path, s) == [x \in DOMAIN disk \cup {path} |-> IF x = path THEN s ELSE disk[x]]
(* the archive, where it was recorded, is well-formed and holds exactly the files *)
ArchiveOf(bs) == /\ WellFormed(bs)
                 /\ LET fs == Parse(bs).files IN
                    /\ Len(fs) = Cardinality(DOMAIN m)
                    /\ {fs[i].name : i \in DOMAIN fs} = DOMAIN m
                    /\ \A i \in DOMAIN fs : LET f == m[fs[i].name] IN fs[i].n = f.n /\ fs[i].c = f.c /\ fs[i].mo = f.mo
EvSave == /\ IsEv("save") /\ ~free /\ Expect(CanSave(Ev.path)) /\ Ev.ok = (CanSave(Ev.path) /\ Ev.writable)
          /\ (Ev.ok /\ "arch" \in DOMAIN Ev) => ArchiveOf(Ev.arch)
          /\ (~Supported(Ev.path)) => ~Ev.created
          /\ disk' = IF Ev.ok THEN PutDisk(Ev.path, Snap(m)) ELSE [x \in DOMAIN disk \ {Ev.path} |-> disk[x]]
          /\ UNCHANGED <<m, free>> /\ Step
(* loading what was saved *)
EvLoad == /\ IsEv("load") /\ ~free
          /\ Ev.ok = (Supported(Ev.path) /\ Ev.path \in DOMAIN disk)
          /\ m' = (IF Ev.ok THEN Load(m, disk[Ev.path]) ELSE m)
          /\ UNCHANGED <<disk, free>> /\ Step
(* loading an archive made elsewhere; a later entry of the same name wins *)
FilesOf(fs) == LET ns == {Low(fs[i].name) : i \in DOMAIN fs}
                   lastOf(x) == CHOOSE i \in DOMAIN fs : Low(fs[i].name) = x /\ \A j \in DOMAIN fs : Low(fs[j].name) = x => j <= i
               IN [x \in ns |-> LET f == fs[lastOf(x)] IN [c |-> f.c, n |-> f.n, mo |-> f.mo]]
EvLoadArch == /\ IsEv("loadarch") /\ ~free
              /\ LET r == Parse(Ev.arch) good == Supported(Ev.path) /\ r.st = "ok" /\ ~Ev.damaged IN
                 /\ Expect(<<good, r.st>>) /\ Ev.ok = good
                 /\ m' = (IF good THEN Load(m, FilesOf(r.files)) ELSE m)
                 /\ free' = ~good
              /\ UNCHANGED disk /\ Step
(* after a failed load: whatever was loaded so far, but nothing that was there before is lost *)
EvAfter == /\ IsEv("after") /\ free
           /\ LET names == {Ev.r[i].name : i \in DOMAIN Ev.r} IN
              /\ DOMAIN m \subseteq names /\ Cardinality(names) = Len(Ev.r)
              /\ m' = [x \in names |-> LET f == Ev.r[CHOOSE i \in DOMAIN Ev.r : Ev.r[i].name = x] IN [c |-> f.c, n |-> f.n, cr |-> Unknown, mo |-> f.mo]]
           /\ free' = FALSE /\ UNCHANGED disk /\ Step
Next == Fresh \/ EvWrite \/ EvRemove \/ EvMove \/ EvRead \/ EvInfo \/ EvList \/ EvStats \/ EvSave \/ EvLoad \/ EvLoadArch \/ EvAfter
=============================================================================
