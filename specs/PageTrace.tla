------------------------------ MODULE PageTrace ------------------------------
(* One page: [fmt, msg, known (is msg what the page says; if not, any failure status), code, want,     *)
(* ctype, clen, body, parts (what surrounds the message on an HTML page)].       *)
EXTENDS JsonOps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES t, l
Tr == Traces[t]
LOCAL INSTANCE SequencesExt
NumVal(n) == LET h == Len(n) > 1 /\ n[2] \in {120, 88} IN
             IF h THEN FoldLeft(LAMBDA a, c : IF a < 0 \/ HexV(c) < 0 \/ a > 1114111 THEN -1 ELSE a * 16 + HexV(c), 0, From(n, 3))
             ELSE IF Digits(From(n, 2)) THEN Num(From(n, 2)) ELSE -1
(* the bytes a character reference stands for, or <<-1>> *)
Ref(n) == CASE n = <<108, 116>> -> <<60>> [] n = <<103, 116>> -> <<62>> [] n = <<97, 109, 112>> -> <<38>> [] n = <<113, 117, 111, 116>> -> <<34>>
            [] n = <<97, 112, 111, 115>> -> <<39>>
            [] n # <<>> /\ n[1] = 35 /\ Len(n) > 1 -> IF NumVal(n) < 0 \/ NumVal(n) > 1114111 THEN <<-1>> ELSE Utf8(NumVal(n))
            [] OTHER -> <<-1>>
RECURSIVE Plain(_, _, _)
Plain(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF s[i] # 38 THEN LET e == Find(s, {38}, i) IN Plain(s, IF e = 0 THEN Len(s) + 1 ELSE e, acc \o Sub(s, i, IF e = 0 THEN Len(s) ELSE e - 1))
    ELSE LET e == Find(s, {59}, i) n == IF e = 0 THEN <<>> ELSE Sub(s, i + 1, e - 1) r == IF Len(n) > 9 THEN <<-1>> ELSE Ref(n) IN
         IF e = 0 THEN acc \o From(s, i) ELSE IF r = <<-1>> THEN Plain(s, i + 1, Append(acc, 38)) ELSE Plain(s, e + 1, acc \o r)
TextOf(s) == Plain(s, 1, <<>>)
RECURSIVE Joined(_, _)
Joined(P, e) == IF Len(P) = 1 THEN P[1] ELSE P[1] \o e \o Joined(Tail(P), e)
Total(P) == FoldLeft(LAMBDA a, p : a + Len(p), 0, P)
HtmlOk == LET P == Tr.parts  k == Len(P) - 1  rest == Len(Tr.body) - Total(P) IN
          /\ k >= 1 /\ rest >= 0 /\ (rest % k) = 0
          /\ LET e == Sub(Tr.body, Len(P[1]) + 1, Len(P[1]) + (rest \div k)) IN
             /\ Joined(P, e) = Tr.body
             /\ Index(e, 60) = 0
             /\ TextOf(e) = Tr.msg
JsonOk == LET p == Parse(Tr.body) IN p.ok /\ p.v.k = "o" /\ (Tr.known => \E x \in p.v.o : x[2] = Str(Tr.msg))
Html == <<116, 101, 120, 116, 47, 104, 116, 109, 108>>
PlainT == <<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>
JsonT == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 115, 111, 110>>
Ok == /\ Tr.out = "page" /\ (IF Tr.known THEN Tr.code = Tr.want ELSE Tr.code \in 400..599) /\ Tr.clen = Len(Tr.body)
      /\ CASE Tr.fmt = "html" -> StartsWith(Tr.ctype, Html) /\ (Tr.known => HtmlOk)
           [] Tr.fmt = "json" -> StartsWith(Tr.ctype, JsonT) /\ JsonOk
           [] OTHER -> StartsWith(Tr.ctype, PlainT) /\ (Tr.known /\ Tr.msg # <<>> => FindStr(Tr.body, Tr.msg, 1) # 0)
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l = 1 /\ Ok /\ l' = 2 /\ t' = t /\ PrintT("ACC " \o ToString(t))
=============================================================================
