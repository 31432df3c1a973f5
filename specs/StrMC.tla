-------------------------------- MODULE StrMC --------------------------------
(* The helpers as loops over the text, step by step; each ends with what       *)
(* StrOps defines, after no more steps than the text has bytes.                *)
EXTENDS StrOps
CONSTANTS Bytes, Max, Bug
VARIABLES job, orig, t, r, base, at, to, acc, n, over
vars == <<job, orig, t, r, base, at, to, acc, n, over>>
Texts(k) == UNION {[1..i -> Bytes] : i \in 0..k}
Init == /\ job \in {"swap", "split", "trim", "title"} /\ orig \in Texts(Max) /\ n = 0 /\ over = FALSE /\ acc = <<>>
        /\ base = orig /\ at = 1 /\ to = Len(orig)
        /\ t \in (IF job \in {"swap", "split"} THEN Texts(2) \ {<<>>} ELSE {<<>>})
        /\ r \in (IF job = "swap" THEN Texts(2) ELSE {<<>>})
Same == UNCHANGED <<job, orig, t, r>>
SwapStep == LET p == FindStr(base, t, at) IN
    IF p = 0 THEN over' = TRUE /\ UNCHANGED <<base, at, to, acc, n>>
    ELSE /\ base' = Sub(base, 1, p - 1) \o r \o From(base, p + Len(t))
         /\ at' = (IF Bug = "rescan" THEN p ELSE IF Bug = "oneoff" THEN p + Len(r) + 1 ELSE p + Len(r))
         /\ n' = n + 1 /\ UNCHANGED <<to, acc, over>>
SplitStep == LET p == FindStr(base, t, at) IN
    IF base = <<>> THEN over' = TRUE /\ UNCHANGED <<base, at, to, acc, n>>
    ELSE IF p = 0 THEN /\ over' = TRUE /\ acc' = (IF at <= Len(base) \/ (Bug = "emptylast" /\ n > 0) THEN Append(acc, From(base, at)) ELSE acc)
                       /\ UNCHANGED <<base, at, to, n>>
    ELSE acc' = Append(acc, Sub(base, at, p - 1)) /\ at' = (IF Bug = "onebyte" THEN p + 1 ELSE p + Len(t)) /\ n' = n + 1 /\ UNCHANGED <<base, to, over>>
TrimStep == IF at <= Len(base) /\ base[at] \in Blank THEN at' = at + 1 /\ n' = n + 1 /\ UNCHANGED <<base, to, acc, over>>
            ELSE IF to >= (IF Bug = "keepone" THEN 2 ELSE at) /\ base[to] \in Blank THEN to' = to - 1 /\ n' = n + 1 /\ UNCHANGED <<base, at, acc, over>>
            ELSE over' = TRUE /\ acc' = Sub(base, at, to) /\ UNCHANGED <<base, at, to, n>>
(* to is the automaton's memory: the next letter is a capital *)
TitleStep == IF at > Len(base) THEN over' = TRUE /\ UNCHANGED <<base, at, to, acc, n>>
             ELSE LET big == at = 1 \/ to = -1 IN
                  /\ acc' = Append(acc, IF big THEN UpC(base[at]) ELSE LowC(base[at]))
                  /\ to' = (IF base[at] \in {32, 45} THEN -1 ELSE IF Bug = "sticky" /\ to = -1 /\ base[at] \notin (65..90 \cup 97..122) THEN -1 ELSE 0)
                  /\ at' = at + 1 /\ n' = n + 1 /\ UNCHANGED <<base, over>>
Next == ~over /\ n <= Max + 1 /\ Same /\ (CASE job = "swap" -> SwapStep [] job = "split" -> SplitStep [] job = "trim" -> TrimStep [] OTHER -> TitleStep)
Spec == Init /\ [][Next]_vars
Ends == n <= Max + 1
Right == over => CASE job = "swap" -> base = SwapAll(orig, t, r)
                   [] job = "split" -> acc = SplitBy(orig, t)
                   [] job = "trim" -> acc = Trim(orig)
                   [] OTHER -> acc = Title(orig)
(* what was cut apart can be put together again *)
Whole == job = "split" /\ over => Glue(acc, t) = orig \/ Glue(acc, t) \o t = orig
=============================================================================
