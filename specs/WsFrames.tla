------------------------------ MODULE WsFrames ------------------------------
(* What the frames of a websocket client mean.  A frame is                   *)
(* [fin, op, masked, len, hlen, tok]: hlen bytes of header, len of payload,  *)
(* tok stands for the unmasked payload.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
OpCont == 0  OpText == 1  OpBin == 2  OpClose == 8  OpPing == 9  OpPong == 10
Known == {OpCont, OpText, OpBin, OpClose, OpPing, OpPong}
Data == {OpCont, OpText, OpBin}
(* open: "none" outside of a fragmented message, otherwise the type of the message *)
Faults(open, f, max) ==
    (IF f.op \notin Known \/ ~f.masked \/ (f.op = OpCont /\ open = "none") THEN {1002} ELSE {})
    \cup (IF f.len > max THEN {1009} ELSE {})
TypeOf(open, f) == CASE f.op = OpText -> "text" [] f.op = OpBin -> "bin" [] OTHER -> open
(* what one frame leads to and whether a message is open after it *)
Effect(open, f, max) ==
    IF Faults(open, f, max) # {} THEN [k |-> "fault", codes |-> Faults(open, f, max)]
    ELSE IF f.op = OpClose THEN [k |-> "close", codes |-> {1000}]
    ELSE IF f.op = OpPing THEN [k |-> "pong", tok |-> f.tok, len |-> f.len]
    ELSE IF f.op = OpPong THEN [k |-> "none"]
    ELSE [k |-> "msg", tok |-> f.tok, len |-> f.len, bin |-> TypeOf(open, f) = "bin", partial |-> ~f.fin]
After(open, f) == IF f.op \notin Data THEN open ELSE IF f.fin THEN "none" ELSE TypeOf(open, f)
(* the meaning of a whole stream up to the frame that ends the session; pos: end of the frame in bytes,
   known: where its header ends *)
RECURSIVE Meaning(_, _, _, _, _)
Meaning(fs, i, open, pos, max) ==
    IF i > Len(fs) THEN <<>>
    ELSE LET f == fs[i] e == Effect(open, f, max) head == pos + f.hlen end == head + f.len IN
         IF e.k \in {"fault", "close"} THEN <<[e |-> e, start |-> pos, head |-> head, end |-> end]>>
         ELSE <<[e |-> e, start |-> pos, head |-> head, end |-> end]>> \o Meaning(fs, i + 1, After(open, f), end, max)
Kind(m, k) == SelectSeq(m, LAMBDA x : x.e.k = k)
Stop(m) == SelectSeq(m, LAMBDA x : x.e.k \in {"fault", "close"})
=============================================================================
