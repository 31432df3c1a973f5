------------------------------- MODULE VFSOps -------------------------------
(* Sequential meaning of the virtual filesystem.  Names are sequences of     *)
(* byte values.  A file is [c, n, cr, mo]: content token, content length,    *)
(* creation and modification time (cr = Unknown after a snapshot load).      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Unknown == -1
Low(p) == [i \in DOMAIN p |-> IF p[i] \in 65..90 THEN p[i] + 32 ELSE p[i]]
NoFiles == [x \in {} |-> 0]
Has(m, p) == Low(p) \in DOMAIN m
File(m, p) == m[Low(p)]
PutFile(m, p, f) == [x \in DOMAIN m \cup {Low(p)} |-> IF x = Low(p) THEN f ELSE m[x]]
DelFile(m, p) == [x \in DOMAIN m \ {Low(p)} |-> m[x]]

Write(m, p, c, n, now) ==
    PutFile(m, p, [c |-> c, n |-> n, cr |-> IF Has(m, p) THEN File(m, p).cr ELSE now, mo |-> now])
Remove(m, p) == DelFile(m, p)
MoveOk(m, p) == Has(m, p)
Move(m, p, q) == IF Low(p) = Low(q) THEN m ELSE PutFile(DelFile(m, p), q, File(m, p))

RECURSIVE Sum(_, _)
Sum(m, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(x) + m[x].n + Sum(m, S \ {x})
TotalFiles(m) == Cardinality(DOMAIN m)
TotalSize(m) == Sum(m, DOMAIN m)

(* snapshots: which names can be stored, which paths are accepted *)
Storable(p) == Len(p) > 0 /\ \A i \in DOMAIN p : p[i] # 0
EndsWith(p, s) == Len(p) >= Len(s) /\ SubSeq(p, Len(p) - Len(s) + 1, Len(p)) = s
DotTar == <<46, 116, 97, 114>>
DotTarGz == <<46, 116, 97, 114, 46, 103, 122>>
DotTgz == <<46, 116, 103, 122>>
Supported(path) == \E e \in {DotTar, DotTarGz, DotTgz} : EndsWith(Low(path), e)
(* what a snapshot stores of each file, and what loading it over m gives *)
Snap(m) == [x \in DOMAIN m |-> [c |-> m[x].c, n |-> m[x].n, mo |-> m[x].mo]]
Load(m, s) == [x \in DOMAIN m \cup DOMAIN s |->
    IF x \in DOMAIN s THEN [c |-> s[x].c, n |-> s[x].n, cr |-> Unknown, mo |-> s[x].mo] ELSE m[x]]
=============================================================================
