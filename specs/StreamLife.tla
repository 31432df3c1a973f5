----------------------------- MODULE StreamLife -----------------------------
(* Life of stream compressors (c) and decompressors (d) in slots.              *)
(* c: [at |-> "none" | "open" | "ended", fed (bytes since the start)]           *)
(* d: [at |-> "none" | "open" | "done" | "broken", fed, got]                    *)
(* A decompressor works on a stream of zlen bytes for dlen bytes of data; bad    *)
(* says that the stream is cut short or damaged, open that more bytes follow.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
NoC == [at |-> "none", fed |-> 0]
NoD == [at |-> "none", fed |-> 0, got |-> 0, same |-> TRUE]
NewC == [NoC EXCEPT !.at = "open"]
NewD == [NoD EXCEPT !.at = "open"]
IsC(op) == op \in {"cnew", "cfeed", "cend", "creset", "cmove", "cmassign", "cout"}
Ok(st, e) ==
    LET c == st.c[e.s]  d == st.d[e.s]  r == e.r IN
    CASE e.op \in {"cnew", "creset", "cmove", "cmassign", "dnew", "dreset", "dmove", "dmassign"} -> r = "done"
      [] e.op \in {"cfeed", "cend"} -> r = (IF c.at = "open" THEN "n" ELSE "throw")
         \* what the reference decoder makes of the output so far
      [] e.op = "cout" -> e.same /\ e.got <= c.fed /\ e.complete = (c.at = "ended") /\ (e.complete => e.got = c.fed)
      [] e.op = "dfeed" -> IF d.at = "done" THEN r = "throw"
                           ELSE IF e.bad \/ d.at = "broken" THEN r \in {"n", "throw"}
                           ELSE r = "n" /\ e.same /\ d.got + e.got <= e.dlen
                                /\ (d.fed + e.n = e.zlen => d.got + e.got = e.dlen)
      [] e.op = "ddone" -> IF d.at = "broken" THEN r = "false"
                           ELSE IF d.at = "none" THEN r = "false"
                           ELSE IF e.bad THEN r = "false" \/ (r = "true" /\ d.got = e.dlen /\ d.same)
                           ELSE r = (IF d.fed = e.zlen THEN "true" ELSE "false")
         \* one-shot: what the reference decoder and the library make of it
      [] e.op = "one" -> r = "n" /\ e.ref /\ e.back \in {"same", "unsupported"}
      [] e.op = "undo" -> IF e.bad THEN r = "throw" \/ (r = "n" /\ e.same) ELSE r = "n" /\ e.same
         \* KiB allocated before and after a series of objects came and went
      [] e.op = "held" -> r = "n" /\ e.after <= e.before + 4096
      [] OTHER -> FALSE
Do(st, e) ==
    LET c == st.c[e.s]  d == st.d[e.s] IN
    CASE e.op \in {"cnew", "creset"} -> [st EXCEPT !.c[e.s] = NewC]
      [] e.op = "cfeed" -> IF c.at # "open" THEN st ELSE [st EXCEPT !.c[e.s] = [at |-> IF e.fin THEN "ended" ELSE "open", fed |-> c.fed + e.n]]
      [] e.op = "cend" -> IF c.at # "open" THEN st ELSE [st EXCEPT !.c[e.s].at = "ended"]
      [] e.op \in {"cmove", "cmassign"} -> [[st EXCEPT !.c[e.s] = st.c[e.o]] EXCEPT !.c[e.o] = NoC]
      [] e.op \in {"dnew", "dreset"} -> [st EXCEPT !.d[e.s] = NewD]
      [] e.op = "dfeed" -> IF d.at # "open" THEN st
                           ELSE IF e.r # "n" THEN [st EXCEPT !.d[e.s].at = "broken"]
                           ELSE [st EXCEPT !.d[e.s] = [at |-> IF ~e.bad /\ d.fed + e.n = e.zlen THEN "done" ELSE "open", fed |-> d.fed + e.n, got |-> d.got + e.got, same |-> d.same /\ e.same]]
      [] e.op \in {"dmove", "dmassign"} -> [[st EXCEPT !.d[e.s] = st.d[e.o]] EXCEPT !.d[e.o] = NoD]
      [] OTHER -> st
=============================================================================
