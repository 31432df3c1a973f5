------------------------------ MODULE StaticOps ------------------------------
(* The static file server over a tree of files below a root directory.  A     *)
(* path is bytes; a tree is a sequence of [segs, kind, body] with kind file   *)
(* (regular), dir or other.                                                   *)
EXTENDS Text
Slashed(p) == TLCEval([i \in DOMAIN p |-> IF p[i] = 92 THEN 47 ELSE p[i]])
Dot == <<46>>
DotDot == <<46, 46>>
Front(s) == SubSeq(s, 1, Len(s) - 1)
(* the segments of a path resolved from left to right; ".." at the root stays there *)
RECURSIVE Walk(_, _)
Walk(segs, stack) ==
    IF segs = <<>> THEN stack
    ELSE LET s == Head(segs) r == Tail(segs) IN
         IF s = Dot THEN Walk(r, stack)
         ELSE IF s = DotDot THEN Walk(r, IF stack = <<>> THEN stack ELSE Front(stack))
         ELSE Walk(r, Append(stack, s))
NonEmpty(segs) == SelectSeq(segs, LAMBDA s : s # <<>>)
(* a path that ends in a slash or a dot segment stands for a directory *)
Resolve(p) == LET parts == Split(Slashed(p), 47)  last == parts[Len(parts)] IN
    [segs |-> Walk(NonEmpty(parts), <<>>), dir |-> last \in {<<>>, Dot, DotDot}, slash |-> last = <<>>]
(* RFC 3986 keeps empty segments while it resolves dots; either reading of "//.." will do *)
ResolveKeep(p) == LET parts == Split(Slashed(p), 47)  body == IF parts[1] = <<>> THEN Tail(parts) ELSE parts
                      last == parts[Len(parts)] IN
    [segs |-> NonEmpty(Walk(body, <<>>)), dir |-> last \in {<<>>, Dot, DotDot}, slash |-> last = <<>>]
Readings(p) == {Resolve(p), ResolveKeep(p)}
(* what may be served for a reading: a set of indexes of the tree, 0 for "not found" *)
Entry(tree, segs, kind) == {i \in DOMAIN tree : tree[i].segs = segs /\ tree[i].kind = kind}
IndexHtml == <<105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>
IndexHtm == Front(IndexHtml)
NotFound == {0}
First(S) == IF S = {} THEN NotFound ELSE S
IndexOf(tree, segs) == LET a == Entry(tree, Append(segs, IndexHtml), "file") b == Entry(tree, Append(segs, IndexHtm), "file") IN
    IF a # {} THEN a ELSE First(b)
Serve(tree, r) ==
    LET f == Entry(tree, r.segs, "file")
        isdir == r.segs = <<>> \/ Entry(tree, r.segs, "dir") # {}
        dotted == r.segs # <<>> /\ 46 \in {r.segs[Len(r.segs)][k] : k \in DOMAIN r.segs[Len(r.segs)]} IN
    IF f # {} THEN (IF r.dir THEN f \cup NotFound ELSE f)
    ELSE IF ~isdir THEN NotFound
    ELSE IF dotted /\ ~r.dir THEN IndexOf(tree, r.segs) \cup NotFound
    ELSE IndexOf(tree, r.segs)
Allowed(tree, p) == IF \E i \in DOMAIN p : p[i] = 0 THEN NotFound ELSE UNION {Serve(tree, r) : r \in Readings(p)}
=============================================================================
