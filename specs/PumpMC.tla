------------------------------- MODULE PumpMC -------------------------------
(* The loop around a codec: input goes in in chunks, output comes out in pieces *)
(* of at most B units; a call that has nothing to do answers "buf".  Whatever   *)
(* the chunking and the expansion, everything comes out and the end is seen.    *)
EXTENDS Naturals
CONSTANTS Input, B, Expand, Bug
VARIABLES left, avail, pend, out, total, phase, err, done, o, worked, code
vars == <<left, avail, pend, out, total, phase, err, done, o, worked, code>>
Init == left \in 1..Input /\ avail = 0 /\ pend = 0 /\ out = 0 /\ total = 0 /\ phase = "idle" /\ err = FALSE /\ done = FALSE /\ o = 0 /\ worked = FALSE /\ code = "ok"
Feed == /\ phase = "idle" /\ left > 0 /\ ~err
        /\ \E c \in 1..left : left' = left - c /\ avail' = c
        /\ phase' = "call" /\ o' = 0 /\ worked' = FALSE /\ UNCHANGED <<pend, out, total, err, done, code>>
Emit == /\ phase = "call" /\ o < B /\ pend > 0
        /\ pend' = pend - 1 /\ out' = out + 1 /\ o' = o + 1 /\ worked' = TRUE /\ UNCHANGED <<left, avail, total, phase, err, done, code>>
Eat == /\ phase = "call" /\ o < B /\ pend = 0 /\ avail > 0
       /\ \E e \in 0..Expand : pend' = e /\ total' = total + e
       /\ avail' = avail - 1 /\ worked' = TRUE /\ UNCHANGED <<left, out, phase, err, done, o, code>>
(* a finished stream may be noticed with a full output piece or in a call of its own *)
Return == /\ phase = "call" /\ (o = B \/ (pend = 0 /\ avail = 0))
          /\ LET complete == left = 0 /\ avail = 0 /\ pend = 0 IN
             \E c \in (IF complete THEN (IF o = B THEN {"ok", "end"} ELSE {"end"}) ELSE IF worked THEN {"ok"} ELSE {"buf"}) :
                code' = c /\ done' = (IF Bug = "everdone" THEN done \/ c # "buf" ELSE (done \/ c = "end")) /\ err' = (err \/ (Bug = "buferr" /\ c = "buf"))
          /\ phase' = (IF IF Bug = "untilinput" THEN avail > 0 ELSE IF Bug = "once" THEN FALSE ELSE o = B THEN "call" ELSE "idle")
          /\ o' = 0 /\ worked' = FALSE /\ UNCHANGED <<left, avail, pend, out, total>>
Next == Feed \/ Emit \/ Eat \/ Return
Spec == Init /\ [][Next]_vars
Sound == /\ ~err
         /\ (phase = "idle" /\ left = 0 => out = total /\ done)
         /\ (phase = "idle" => avail = 0 /\ pend = 0)
         /\ (done => out = total /\ left = 0)
=============================================================================
