----------------------------- MODULE TemplateMC -----------------------------
(* A renderer that rewrites one text in place, as the library's does: open,   *)
(* close, replace, go on; compared with the meaning of the template.          *)
EXTENDS Template
CONSTANTS Chars, Max, Bug
Props == <<<<<<97>>, <<123>>>>, <<<<97, 97>>, <<123, 123, 98, 125, 125>>>>>>
VARIABLES src, text, from, pc
vars == <<src, text, from, pc>>
Init == src = <<>> /\ text = <<>> /\ from = 1 /\ pc = "write"
Write == pc = "write" /\ Len(src) < Max /\ \E c \in Chars : src' = Append(src, c) /\ UNCHANGED <<text, from, pc>>
Start == pc = "write" /\ pc' = "scan" /\ text' = src /\ UNCHANGED <<src, from>>
Scan == /\ pc = "scan"
        /\ LET o == FindStr(text, <<123, 123>>, from)
               c == IF o = 0 THEN 0 ELSE FindStr(text, <<125, 125>>, o + (IF Bug = "overlap" THEN 1 ELSE 2)) IN
           IF o = 0 \/ c = 0 THEN pc' = "done" /\ UNCHANGED <<text, from>>
           ELSE LET h == HoleAt(text, o) IN
                IF h[1] = 0 \/ h[3] # c + 1
                THEN from' = (IF Bug = "skipclose" THEN c + 2 ELSE o + 1) /\ UNCHANGED <<text, pc>>
                ELSE LET v == ValueOf(Props, SubSeq(text, h[1], h[2])) IN
                     /\ text' = Sub(text, 1, o - 1) \o v \o From(text, c + 2)
                     /\ from' = (IF Bug = "rescan" THEN o ELSE o + Len(v)) /\ pc' = pc
        /\ src' = src
Next == Write \/ Start \/ Scan
Spec == Init /\ [][Next]_vars
Bounded == Len(text) <= 40
Meaning == pc = "done" => text = Render(src, Props)
=============================================================================
