------------------------------ MODULE HttpOps ------------------------------
(* What a request head means, and what has to come back.                     *)
EXTENDS Text
CRLF == <<13, 10>>
EndOfHead == <<13, 10, 13, 10>>
Methods == {<<71, 69, 84>>, <<80, 79, 83, 84>>, <<80, 85, 84>>, <<68, 69, 76, 69, 84, 69>>, <<72, 69, 65, 68>>, <<79, 80, 84, 73, 79, 78, 83>>, <<84, 82, 65, 67, 69>>, <<80, 65, 84, 67, 72>>, <<67, 79, 78, 78, 69, 67, 84>>}
HEADm == <<72, 69, 65, 68>>
HttpSlash == <<72, 84, 84, 80, 47>>
nConnection == <<99, 111, 110, 110, 101, 99, 116, 105, 111, 110>>
nLength == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>
nTE == <<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>
nHost == <<104, 111, 115, 116>>
nType == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>
nCoding == <<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>
nAccept == <<97, 99, 99, 101, 112, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>
nDate == <<100, 97, 116, 101>>
nServer == <<115, 101, 114, 118, 101, 114>>
nReqId == <<120, 45, 114, 101, 113, 117, 101, 115, 116, 45, 105, 100>>
vKeep == <<107, 101, 101, 112, 45, 97, 108, 105, 118, 101>>
vClose == <<99, 108, 111, 115, 101>>
vBr == <<98, 114>>
vGzip == <<103, 122, 105, 112>>
vDeflate == <<100, 101, 102, 108, 97, 116, 101>>
TextTypes == {<<116, 101, 120, 116>>, <<104, 116, 109, 108>>, <<106, 115, 111, 110>>, <<120, 109, 108>>, <<106, 97, 118, 97, 115, 99, 114, 105, 112, 116>>}

(* -------------------------------------------------- the head of a request *)
HeadLines(head) == SplitStr(Sub(head, 1, Len(head) - 4), CRLF)
StartParts(head) == Split(HeadLines(head)[1], SP)
StartOk(head) == LET p == StartParts(head) IN
    /\ Len(p) = 3 /\ \A i \in 1..3 : p[i] # <<>>
    /\ p[1] \in Methods /\ StartsWith(p[3], HttpSlash)
FieldLines(head) == Tail(HeadLines(head))
FieldName(f) == Lower(Trim(UpTo(f, 58)))
FieldValue(f) == Trim(After(f, 58))
FieldOk(f) == Index(f, 58) # 0 /\ FieldName(f) # <<>>
(* the headers as the handler gets them, in order *)
Headers(head) == LET fl == FieldLines(head) IN
    SelectSeq(TLCEval([i \in 1..Len(fl) |-> <<FieldName(fl[i]), FieldValue(fl[i])>>]), LAMBDA h : h[2] # <<>>)
Values(hs, n) == LET of == SelectSeq(hs, LAMBDA h : h[1] = n) IN TLCEval([i \in 1..Len(of) |-> of[i][2]])
First(hs, n) == LET v == Values(hs, n) IN IF v = <<>> THEN <<>> ELSE v[1]
LengthOk(hs) == LET v == Values(hs, nLength) IN v = <<>> \/ (Digits(v[1]) /\ \A i \in DOMAIN v : v[i] = v[1])
BodyLength(hs) == LET v == Values(hs, nLength) IN IF v = <<>> THEN 0 ELSE Num(v[1])

(* status codes with which this request may be refused; {} = it is to be served *)
Refusals(head, max) ==
    LET fields == FieldLines(head)
        syntax == StartOk(head) /\ \A i \in DOMAIN fields : FieldOk(fields[i])
        hs == Headers(head)
    IN  IF Len(head) > max THEN {400, 413}
        ELSE IF ~syntax THEN {400}
        ELSE (IF Values(hs, nTE) # <<>> THEN {501} ELSE {}) \cup
             (IF ~LengthOk(hs) THEN {400}
              ELSE IF Len(head) + BodyLength(hs) > max THEN {413} ELSE {})

Method(head) == StartParts(head)[1]
Target(head) == UpTo(StartParts(head)[2], 35)
Path(head) == LET p == UpTo(Target(head), 63) IN IF p = <<>> THEN <<47>> ELSE p
(* <<name, value>> of every query parameter that has both *)
Params(query) == LET es == Split(query, 38)
                     kv == TLCEval([i \in 1..Len(es) |-> <<Lower(Trim(UpTo(es[i], 61))), Trim(After(es[i], 61))>>])
                 IN SelectSeq(kv, LAMBDA p : p[1] # <<>> /\ p[2] # <<>>)
Query(head) == Params(After(Target(head), 63))
(* [::1]:80 has its colons inside the brackets *)
PortColon(h) == Find(h, {58}, IF StartsWith(h, <<91>>) /\ Index(h, 93) # 0 THEN Index(h, 93) ELSE 1)
HostName(h) == LET k == PortColon(h) IN IF k = 0 THEN h ELSE Sub(h, 1, k - 1)
HostPort(h) == LET k == PortColon(h) IN IF k = 0 THEN <<>> ELSE From(h, k + 1)

(* -------------------------------------------------- reuse of the connection *)
KeepRequested(hs) == LET c == Lower(First(hs, nConnection)) IN (c = <<>> \/ Has(c, vKeep)) /\ ~Has(c, vClose)
(* own: the handler's own connection header, <<>> when there is none *)
Keep(hs, own, reuse) == IF own # <<>> THEN ~Has(Lower(own), vClose) ELSE reuse /\ KeepRequested(hs)

(* -------------------------------------------------- content coding *)
ZeroWeight(p) == LET n == Trim(UpTo(p, 61)) v == Trim(After(p, 61))
                 IN n = <<113>> /\ v # <<>> /\ v[1] = 48 /\ \A i \in DOMAIN v : v[i] \in {48, 46}
Accepted(hs) == LET items == Split(Lower(First(hs, nAccept)), 44)
                    ok == SelectSeq(items, LAMBDA x : ~ZeroWeight(After(x, 59)))
                IN {Trim(UpTo(ok[i], 59)) : i \in DOMAIN ok}
Best(A) == IF vBr \in A THEN vBr ELSE IF vGzip \in A THEN vGzip ELSE IF vDeflate \in A THEN vDeflate ELSE <<>>
Textual(type) == type = <<>> \/ \E t \in TextTypes : Has(Lower(type), t)
(* the coding the server has to apply; type, own, n: content type, own coding and length of the handler's body *)
Coding(hs, compress, type, own, n) ==
    IF ~compress \/ own # <<>> \/ n = 0 \/ ~Textual(type) THEN <<>> ELSE Best(Accepted(hs))
(* statuses whose responses never have a body *)
Bodyless(code) == code \in 100..199 \/ code \in {204, 304}
=============================================================================
