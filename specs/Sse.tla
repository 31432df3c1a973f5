--------------------------------- MODULE Sse ---------------------------------
(* What an event stream means (the EventSource interpretation of the HTML    *)
(* standard), and what a sequence of pushed events should mean.              *)
(* Texts are byte sequences.                                                 *)
EXTENDS Text
LOCAL INSTANCE SequencesExt
nEvent == <<101, 118, 101, 110, 116>>
nData == <<100, 97, 116, 97>>
nId == <<105, 100>>
nRetry == <<114, 101, 116, 114, 121>>
vMessage == <<109, 101, 115, 115, 97, 103, 101>>
vClose == <<99, 108, 111, 115, 101>>
Breaks(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = CR \/ (s[i] = LF /\ ~(i > 1 /\ s[i - 1] = CR)))
NextLine(s, e) == IF s[e] = CR /\ e < Len(s) /\ s[e + 1] = LF THEN e + 2 ELSE e + 1
(* terminated lines *)
LinesOf(s) == LET b == TLCEval(Breaks(s)) IN TLCEval([j \in 1..Len(b) |-> Sub(s, IF j = 1 THEN 1 ELSE NextLine(s, b[j - 1]), b[j] - 1)])
(* is there nothing after the last line break? *)
Whole(s) == IF s = <<>> THEN TRUE ELSE s[Len(s)] \in {CR, LF}
Start == [type |-> <<>>, data |-> <<>>, any |-> FALSE, id |-> <<>>, retry |-> <<>>, out |-> <<>>]
Field(st, f, v) ==
    CASE f = nEvent -> [st EXCEPT !.type = v]
      [] f = nData  -> [st EXCEPT !.data = IF st.any THEN st.data \o <<LF>> \o v ELSE v, !.any = TRUE]
      [] f = nId    -> IF \E i \in DOMAIN v : v[i] = 0 THEN st ELSE [st EXCEPT !.id = v]
      [] f = nRetry -> IF Digits(v) THEN [st EXCEPT !.retry = v] ELSE st
      [] OTHER -> st
LineStep(st, ln) ==
    IF ln = <<>> THEN
        [st EXCEPT !.type = <<>>, !.data = <<>>, !.any = FALSE,
                   !.out = IF st.any THEN Append(st.out, [type |-> IF st.type = <<>> THEN vMessage ELSE st.type, data |-> st.data, id |-> st.id, retry |-> st.retry])
                           ELSE st.out]
    ELSE LET k == Index(ln, 58) IN
         IF k = 1 THEN st
         ELSE IF k = 0 THEN Field(st, ln, <<>>)
         ELSE LET v == From(ln, k + 1) IN Field(st, Sub(ln, 1, k - 1), IF v # <<>> /\ v[1] = SP THEN From(v, 2) ELSE v)
Decoder(s) == FoldLeft(LineStep, Start, LinesOf(s))
Decode(s) == Decoder(s).out
(* nothing of a following event has arrived *)
AtBorder(s) == LET d == Decoder(s) IN Whole(s) /\ d.type = <<>> /\ ~d.any

(* --- pushed events: [event, id, retry: <<>> when not given, hasid, data] *)
(* line breaks of any kind arrive as LF *)
Normal(d) ==
    LET b == TLCEval(Breaks(d)) IN
    IF b = <<>> THEN d
    ELSE LET ls == LinesOf(d) IN TLCEval(FoldLeft(LAMBDA a, l : a \o l \o <<LF>>, <<>>, ls)) \o From(d, NextLine(d, b[Len(b)]))
Breaking(s) == \E i \in DOMAIN s : s[i] \in {CR, LF}
(* names and ids of more than one line cannot be expressed, nor can ids with a zero *)
Expressible(m) == ~Breaking(m.event) /\ ~Breaking(m.id) /\ ~\E i \in DOMAIN m.id : m.id[i] = 0
PushStep(st, m) ==
    LET id == IF m.hasid THEN m.id ELSE st.id
        re == IF m.retry # <<>> THEN m.retry ELSE st.retry
    IN [id |-> id, retry |-> re, out |-> Append(st.out, [type |-> IF m.event = <<>> THEN vMessage ELSE m.event, data |-> Normal(m.data), id |-> id, retry |-> re])]
Meaning(ms) == FoldLeft(PushStep, [id |-> <<>>, retry |-> <<>>, out |-> <<>>], ms).out
=============================================================================
