------------------------------ MODULE VFSModel ------------------------------
(* The filesystem as it is built: the map together with incrementally kept   *)
(* statistics.  Checked: the statistics always equal the derived ones.  The  *)
(* switches reproduce accounting mistakes; each must be refuted.             *)
EXTENDS VFSOps
CONSTANTS Names, Contents, MaxTime, CountReplacedOnMove, FailedMoveChanges, CountLoads, Snapshots, Snapshots
Names_ == {<<65>>, <<97>>, <<97, 98>>}
NamesSmall == {<<65>>, <<97, 98>>}
VARIABLES m, now, files, size, disk, last
vars == <<m, now, files, size, disk, last>>
ContentLen(c) == Len(c)
Rec(op, p, q, c) == [op |-> op, p |-> p, q |-> q, c |-> c]
Init == m = NoFiles /\ now = 1 /\ files = 0 /\ size = 0 /\ disk = <<>> /\ last = Rec("none", <<>>, <<>>, "")
Weight(x) == Len(x) + m[x].n
DoWrite(p, c) ==
    /\ m' = Write(m, p, c, ContentLen(c), now)
    /\ files' = IF Has(m, p) THEN files ELSE files + 1
    /\ size' = size + Len(p) + ContentLen(c) - (IF Has(m, p) THEN Weight(Low(p)) ELSE 0)
    /\ last' = Rec("write", p, <<>>, c) /\ UNCHANGED <<now, disk>>
DoRemove(p) ==
    /\ m' = Remove(m, p)
    /\ files' = IF Has(m, p) THEN files - 1 ELSE files
    /\ size' = IF Has(m, p) THEN size - Weight(Low(p)) ELSE size
    /\ last' = Rec("remove", p, <<>>, "") /\ UNCHANGED <<now, disk>>
DoMove(p, q) ==
    /\ last' = Rec("move", p, q, "") /\ UNCHANGED <<now, disk>>
    /\ IF ~MoveOk(m, p)
       THEN /\ UNCHANGED <<m, files>> /\ size' = IF FailedMoveChanges THEN size + Len(q) - Len(p) ELSE size
       ELSE /\ m' = Move(m, p, q)
            /\ LET rep == Low(p) # Low(q) /\ Has(m, q) /\ CountReplacedOnMove IN
               /\ files' = IF rep THEN files - 1 ELSE files
               /\ size' = size + Len(q) - Len(p) - (IF rep THEN Weight(Low(q)) ELSE 0)
DoSave == /\ Snapshots /\ disk = <<>> /\ disk' = <<Snap(m)>> /\ last' = Rec("save", <<>>, <<>>, "") /\ UNCHANGED <<m, now, files, size>>
DoLoad == /\ disk # <<>> /\ m' = Load(m, disk[1]) /\ disk' = <<>> /\ last' = Rec("load", <<>>, <<>>, "") /\ UNCHANGED now
          /\ files' = IF CountLoads THEN Cardinality(DOMAIN Load(m, disk[1])) ELSE files
          /\ size' = IF CountLoads THEN TotalSize(Load(m, disk[1])) ELSE size
Tick == now < MaxTime /\ now' = now + 1 /\ last' = Rec("tick", <<>>, <<>>, "") /\ UNCHANGED <<m, files, size, disk>>
Next == \/ \E p \in Names, c \in Contents : DoWrite(p, c)
        \/ \E p \in Names : DoRemove(p)
        \/ \E p, q \in Names : DoMove(p, q)
        \/ DoSave \/ DoLoad \/ Tick
Spec == Init /\ [][Next]_vars
StatsMatch == files = TotalFiles(m) /\ size = TotalSize(m)
LowerOnly == \A x \in DOMAIN m : Low(x) = x
TimesOrdered == \A x \in DOMAIN m : m[x].cr = Unknown \/ (m[x].cr <= m[x].mo /\ m[x].mo <= now)
(* moving never loses content: what the source held is what the target holds *)
MoveCarries == [][ (last'.op = "move" /\ Has(m, last'.p)) =>
                    (Has(m', last'.q) /\ File(m', last'.q) = File(m, last'.p)) ]_vars
=============================================================================
