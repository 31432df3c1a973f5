------------------------------ MODULE JsonHeap ------------------------------
(* Values own their parts.  Assigning a value from any other - one of its own   *)
(* parts included - copies first and releases the old parts afterwards; no part *)
(* is ever shared, read after its release, or released twice.                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Nodes, Slots, Bug
VARIABLES live, kids, root, fault
vars == <<live, kids, root, fault>>
RECURSIVE Tree(_)
Tree(n) == {n} \cup UNION {Tree(kids[n][i]) : i \in DOMAIN kids[n]}
RECURSIVE Depth(_)
Depth(n) == IF kids[n] = <<>> THEN 1 ELSE 1 + Depth(kids[n][1])
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* copies of trees of at most three levels with at most one part each: a list of new nodes *)
RECURSIVE Chain(_)
Chain(n) == <<n>> \o (IF kids[n] = <<>> THEN <<>> ELSE Chain(kids[n][1]))
RECURSIVE Take(_, _)
Take(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE <<Min(S)>> \o Take(S \ {Min(S)}, n - 1)
Init == /\ live = {Min(Nodes)} \cup {Min(Nodes) + 1} /\ kids = [n \in Nodes |-> <<>>]
        /\ root = [s \in Slots |-> IF s = 1 THEN Min(Nodes) ELSE Min(Nodes) + 1] /\ fault = FALSE
Free == Nodes \ live
Build(s, d) == LET c == Take(Free, d) IN
    /\ Len(c) = d
    /\ live' = (live \ Tree(root[s])) \cup {c[i] : i \in 1..d}
    /\ kids' = [n \in Nodes |-> IF \E i \in 1..d : c[i] = n THEN LET i == CHOOSE i \in 1..d : c[i] = n IN IF i = d THEN <<>> ELSE <<c[i + 1]>> ELSE kids[n]]
    /\ root' = [root EXCEPT ![s] = c[1]] /\ UNCHANGED fault
Assign(s, n) ==
    LET src == Chain(n)  old == Tree(root[s])
        f == (Bug = "freefirst") /\ {src[i] : i \in DOMAIN src} \cap old # {}
        c == Take(Free, Len(src)) IN
    /\ Len(c) = Len(src)
    /\ fault' = (fault \/ f \/ (\E i \in DOMAIN src : src[i] \notin live) \/ ~(old \subseteq live))
    /\ IF Bug = "share" THEN /\ live' = live \ (old \ Tree(n)) /\ kids' = kids /\ root' = [root EXCEPT ![s] = n]
       ELSE /\ live' = (IF Bug = "leak" THEN live ELSE live \ old) \cup {c[i] : i \in DOMAIN c}
            /\ kids' = [m \in Nodes |-> IF \E i \in DOMAIN c : c[i] = m THEN LET i == CHOOSE i \in DOMAIN c : c[i] = m IN IF i = Len(c) THEN <<>> ELSE <<c[i + 1]>> ELSE kids[m]]
            /\ root' = [root EXCEPT ![s] = c[1]]
Next == \E s \in Slots : (\E d \in 1..3 : Build(s, d)) \/ (\E r \in Slots : \E n \in Tree(root[r]) : Assign(s, n))
Spec == Init /\ [][Next]_vars
Sound == /\ ~fault
         /\ \A r, s \in Slots : r # s => Tree(root[r]) \cap Tree(root[s]) = {}
         /\ live = UNION {Tree(root[s]) : s \in Slots}
=============================================================================
