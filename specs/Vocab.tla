------------------------------- MODULE Vocab -------------------------------
(* The vocabulary of HTTP: methods, statuses, basic credentials, media types.  *)
EXTENDS Codec
(* RFC 9110 and its registries; in plain text: 100 Continue, 101 Switching Protocols, 102 Processing ... *)
Reasons ==
    (100 :> <<67, 111, 110, 116, 105, 110, 117, 101>>)
    @@ (101 :> <<83, 119, 105, 116, 99, 104, 105, 110, 103, 32, 80, 114, 111, 116, 111, 99, 111, 108, 115>>)
    @@ (102 :> <<80, 114, 111, 99, 101, 115, 115, 105, 110, 103>>)
    @@ (200 :> <<79, 75>>)
    @@ (201 :> <<67, 114, 101, 97, 116, 101, 100>>)
    @@ (202 :> <<65, 99, 99, 101, 112, 116, 101, 100>>)
    @@ (203 :> <<78, 111, 110, 45, 65, 117, 116, 104, 111, 114, 105, 116, 97, 116, 105, 118, 101, 32, 73, 110, 102, 111, 114, 109, 97, 116, 105, 111, 110>>)
    @@ (204 :> <<78, 111, 32, 67, 111, 110, 116, 101, 110, 116>>)
    @@ (205 :> <<82, 101, 115, 101, 116, 32, 67, 111, 110, 116, 101, 110, 116>>)
    @@ (206 :> <<80, 97, 114, 116, 105, 97, 108, 32, 67, 111, 110, 116, 101, 110, 116>>)
    @@ (207 :> <<77, 117, 108, 116, 105, 45, 83, 116, 97, 116, 117, 115>>)
    @@ (226 :> <<73, 77, 32, 85, 115, 101, 100>>)
    @@ (300 :> <<77, 117, 108, 116, 105, 112, 108, 101, 32, 67, 104, 111, 105, 99, 101, 115>>)
    @@ (301 :> <<77, 111, 118, 101, 100, 32, 80, 101, 114, 109, 97, 110, 101, 110, 116, 108, 121>>)
    @@ (302 :> <<70, 111, 117, 110, 100>>)
    @@ (303 :> <<83, 101, 101, 32, 79, 116, 104, 101, 114>>)
    @@ (304 :> <<78, 111, 116, 32, 77, 111, 100, 105, 102, 105, 101, 100>>)
    @@ (305 :> <<85, 115, 101, 32, 80, 114, 111, 120, 121>>)
    @@ (307 :> <<84, 101, 109, 112, 111, 114, 97, 114, 121, 32, 82, 101, 100, 105, 114, 101, 99, 116>>)
    @@ (308 :> <<80, 101, 114, 109, 97, 110, 101, 110, 116, 32, 82, 101, 100, 105, 114, 101, 99, 116>>)
    @@ (400 :> <<66, 97, 100, 32, 82, 101, 113, 117, 101, 115, 116>>)
    @@ (401 :> <<85, 110, 97, 117, 116, 104, 111, 114, 105, 122, 101, 100>>)
    @@ (402 :> <<80, 97, 121, 109, 101, 110, 116, 32, 82, 101, 113, 117, 105, 114, 101, 100>>)
    @@ (403 :> <<70, 111, 114, 98, 105, 100, 100, 101, 110>>)
    @@ (404 :> <<78, 111, 116, 32, 70, 111, 117, 110, 100>>)
    @@ (405 :> <<77, 101, 116, 104, 111, 100, 32, 78, 111, 116, 32, 65, 108, 108, 111, 119, 101, 100>>)
    @@ (406 :> <<78, 111, 116, 32, 65, 99, 99, 101, 112, 116, 97, 98, 108, 101>>)
    @@ (407 :> <<80, 114, 111, 120, 121, 32, 65, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 105, 111, 110, 32, 82, 101, 113, 117, 105, 114, 101, 100>>)
    @@ (408 :> <<82, 101, 113, 117, 101, 115, 116, 32, 84, 105, 109, 101, 111, 117, 116>>)
    @@ (409 :> <<67, 111, 110, 102, 108, 105, 99, 116>>)
    @@ (410 :> <<71, 111, 110, 101>>)
    @@ (411 :> <<76, 101, 110, 103, 116, 104, 32, 82, 101, 113, 117, 105, 114, 101, 100>>)
    @@ (412 :> <<80, 114, 101, 99, 111, 110, 100, 105, 116, 105, 111, 110, 32, 70, 97, 105, 108, 101, 100>>)
    @@ (413 :> <<80, 97, 121, 108, 111, 97, 100, 32, 84, 111, 111, 32, 76, 97, 114, 103, 101>>)
    @@ (414 :> <<85, 82, 73, 32, 84, 111, 111, 32, 76, 111, 110, 103>>)
    @@ (415 :> <<85, 110, 115, 117, 112, 112, 111, 114, 116, 101, 100, 32, 77, 101, 100, 105, 97, 32, 84, 121, 112, 101>>)
    @@ (416 :> <<82, 97, 110, 103, 101, 32, 78, 111, 116, 32, 83, 97, 116, 105, 115, 102, 105, 97, 98, 108, 101>>)
    @@ (417 :> <<69, 120, 112, 101, 99, 116, 97, 116, 105, 111, 110, 32, 70, 97, 105, 108, 101, 100>>)
    @@ (418 :> <<73, 39, 109, 32, 97, 32, 116, 101, 97, 112, 111, 116>>)
    @@ (422 :> <<85, 110, 112, 114, 111, 99, 101, 115, 115, 97, 98, 108, 101, 32, 69, 110, 116, 105, 116, 121>>)
    @@ (423 :> <<76, 111, 99, 107, 101, 100>>)
    @@ (424 :> <<70, 97, 105, 108, 101, 100, 32, 68, 101, 112, 101, 110, 100, 101, 110, 99, 121>>)
    @@ (426 :> <<85, 112, 103, 114, 97, 100, 101, 32, 82, 101, 113, 117, 105, 114, 101, 100>>)
    @@ (428 :> <<80, 114, 101, 99, 111, 110, 100, 105, 116, 105, 111, 110, 32, 82, 101, 113, 117, 105, 114, 101, 100>>)
    @@ (429 :> <<84, 111, 111, 32, 77, 97, 110, 121, 32, 82, 101, 113, 117, 101, 115, 116, 115>>)
    @@ (431 :> <<82, 101, 113, 117, 101, 115, 116, 32, 72, 101, 97, 100, 101, 114, 32, 70, 105, 101, 108, 100, 115, 32, 84, 111, 111, 32, 76, 97, 114, 103, 101>>)
    @@ (451 :> <<85, 110, 97, 118, 97, 105, 108, 97, 98, 108, 101, 32, 70, 111, 114, 32, 76, 101, 103, 97, 108, 32, 82, 101, 97, 115, 111, 110, 115>>)
    @@ (500 :> <<73, 110, 116, 101, 114, 110, 97, 108, 32, 83, 101, 114, 118, 101, 114, 32, 69, 114, 114, 111, 114>>)
    @@ (501 :> <<78, 111, 116, 32, 73, 109, 112, 108, 101, 109, 101, 110, 116, 101, 100>>)
    @@ (502 :> <<66, 97, 100, 32, 71, 97, 116, 101, 119, 97, 121>>)
    @@ (503 :> <<83, 101, 114, 118, 105, 99, 101, 32, 85, 110, 97, 118, 97, 105, 108, 97, 98, 108, 101>>)
    @@ (504 :> <<71, 97, 116, 101, 119, 97, 121, 32, 84, 105, 109, 101, 45, 111, 117, 116>>)
    @@ (505 :> <<72, 84, 84, 80, 32, 86, 101, 114, 115, 105, 111, 110, 32, 78, 111, 116, 32, 83, 117, 112, 112, 111, 114, 116, 101, 100>>)
    @@ (506 :> <<86, 97, 114, 105, 97, 110, 116, 32, 65, 108, 115, 111, 32, 78, 101, 103, 111, 116, 105, 97, 116, 101, 115>>)
    @@ (507 :> <<73, 110, 115, 117, 102, 102, 105, 99, 105, 101, 110, 116, 32, 83, 116, 111, 114, 97, 103, 101>>)
    @@ (511 :> <<78, 101, 116, 119, 111, 114, 107, 32, 65, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 105, 111, 110, 32, 82, 101, 113, 117, 105, 114, 101, 100>>)
Codes == DOMAIN Reasons
(* registered codes that may or may not be known *)
MayKnow == {103, 208, 421, 425, 508, 510}
Type(c) == IF c < 200 THEN 1 ELSE IF c < 300 THEN 2 ELSE IF c < 400 THEN 3 ELSE IF c < 500 THEN 4 ELSE 5
(* in the order of the library's enumeration *)
Names == << <<71, 69, 84>>, <<80, 79, 83, 84>>, <<80, 85, 84>>, <<68, 69, 76, 69, 84, 69>>, <<72, 69, 65, 68>>, <<79, 80, 84, 73, 79, 78, 83>>,
            <<84, 82, 65, 67, 69>>, <<80, 65, 84, 67, 72>>, <<67, 79, 78, 78, 69, 67, 84>> >>
UpC(c) == IF c \in 97..122 THEN c - 32 ELSE c
Upper(s) == TLCEval([i \in DOMAIN s |-> UpC(s[i])])
MethodOf(s) == LET n == Upper(Trim(s)) I == {i \in DOMAIN Names : Names[i] = n} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
(* ---- media types a web server cannot do without *)
Media ==
    (<<104, 116, 109, 108>> :> {<<116, 101, 120, 116, 47, 104, 116, 109, 108>>}) @@
    (<<104, 116, 109>> :> {<<116, 101, 120, 116, 47, 104, 116, 109, 108>>}) @@
    (<<99, 115, 115>> :> {<<116, 101, 120, 116, 47, 99, 115, 115>>}) @@
    (<<106, 115>> :> {<<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 97, 118, 97, 115, 99, 114, 105, 112, 116>>, <<116, 101, 120, 116, 47, 106, 97, 118, 97, 115, 99, 114, 105, 112, 116>>}) @@
    (<<106, 115, 111, 110>> :> {<<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 115, 111, 110>>}) @@
    (<<112, 110, 103>> :> {<<105, 109, 97, 103, 101, 47, 112, 110, 103>>}) @@
    (<<106, 112, 103>> :> {<<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>}) @@
    (<<106, 112, 101, 103>> :> {<<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>}) @@
    (<<103, 105, 102>> :> {<<105, 109, 97, 103, 101, 47, 103, 105, 102>>}) @@
    (<<115, 118, 103>> :> {<<105, 109, 97, 103, 101, 47, 115, 118, 103, 43, 120, 109, 108>>}) @@
    (<<116, 120, 116>> :> {<<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>}) @@
    (<<120, 109, 108>> :> {<<116, 101, 120, 116, 47, 120, 109, 108>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 109, 108>>}) @@
    (<<112, 100, 102>> :> {<<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 112, 100, 102>>}) @@
    (<<122, 105, 112>> :> {<<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 122, 105, 112>>}) @@
    (<<103, 122>> :> {<<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 103, 122, 105, 112>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 103, 122, 105, 112>>}) @@
    (<<109, 112, 51>> :> {<<97, 117, 100, 105, 111, 47, 109, 112, 101, 103>>}) @@
    (<<109, 112, 52>> :> {<<118, 105, 100, 101, 111, 47, 109, 112, 52>>}) @@
    (<<119, 101, 98, 109>> :> {<<118, 105, 100, 101, 111, 47, 119, 101, 98, 109>>}) @@
    (<<119, 101, 98, 112>> :> {<<105, 109, 97, 103, 101, 47, 119, 101, 98, 112>>}) @@
    (<<119, 97, 115, 109>> :> {<<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 119, 97, 115, 109>>}) @@
    (<<119, 111, 102, 102>> :> {<<102, 111, 110, 116, 47, 119, 111, 102, 102>>}) @@
    (<<119, 111, 102, 102, 50>> :> {<<102, 111, 110, 116, 47, 119, 111, 102, 102, 50>>}) @@
    (<<116, 116, 102>> :> {<<102, 111, 110, 116, 47, 116, 116, 102>>}) @@
    (<<111, 116, 102>> :> {<<102, 111, 110, 116, 47, 111, 116, 102>>}) @@
    (<<99, 115, 118>> :> {<<116, 101, 120, 116, 47, 99, 115, 118>>}) @@
    (<<97, 118, 105, 102>> :> {<<105, 109, 97, 103, 101, 47, 97, 118, 105, 102>>}) @@
    (<<109, 100>> :> {<<116, 101, 120, 116, 47, 109, 97, 114, 107, 100, 111, 119, 110>>}) @@
    (<<120, 104, 116, 109, 108>> :> {<<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 104, 116, 109, 108, 43, 120, 109, 108>>})
Octets == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 111, 99, 116, 101, 116, 45, 115, 116, 114, 101, 97, 109>>
Bin == <<98, 105, 110>>
RECURSIVE LastDot(_, _)
LastDot(s, k) == IF k = 0 THEN 0 ELSE IF s[k] = 46 THEN k ELSE LastDot(s, k - 1)
Ext(s) == From(s, LastDot(s, Len(s)) + 1)
(* ---- RFC 7617: Basic SP base64(user ":" password); a user name has no colon *)
BASIC == <<98, 97, 115, 105, 99>>
Creds(s) == LET k == Index(s, 58) IN IF k = 0 THEN <<>> ELSE << Sub(s, 1, k - 1), From(s, k + 1) >>
Header(u, p) == <<66, 97, 115, 105, 99, 32>> \o ToBase64(u \o <<58>> \o p)
B64Chars == Alnum \cup {43, 47}
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63
UnB64(s) == LET x == TLCEval([i \in DOMAIN s |-> B64Val(s[i])]) n == (Len(s) * 6) \div 8 IN
    TLCEval([i \in 1..n |-> LET q == ((i - 1) \div 3) * 4 IN
        CASE (i - 1) % 3 = 0 -> x[q + 1] * 4 + x[q + 2] \div 16
          [] (i - 1) % 3 = 1 -> ((x[q + 2] % 16) * 16) + x[q + 3] \div 4
          [] OTHER -> ((x[q + 3] % 4) * 64) + x[q + 4]])
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = 61 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* yes: these are the credentials; no: there are none; open: a reader may be generous *)
Basic(h) ==
    LET k == Index(h, 32)  e == Trim(From(h, k + 1))  p == Strip(e)  v == UnB64(p) IN
    IF k = 0 THEN [is |-> IF Len(h) > 5 /\ Lower(SubSeq(h, 1, 5)) = BASIC THEN "open" ELSE "no", c |-> <<>>]
    ELSE IF Lower(Sub(h, 1, k - 1)) # BASIC THEN [is |-> IF StartsWith(Lower(Trim(h)), BASIC) THEN "open" ELSE "no", c |-> <<>>]
    ELSE IF e = <<>> \/ (\E i \in DOMAIN p : p[i] \notin B64Chars) \/ (Len(p) % 4) = 1 \/ Len(e) - Len(p) > 2 \/ Creds(v) = <<>> THEN [is |-> "no", c |-> <<>>]
    ELSE [is |-> IF ToBase64(v) = e THEN "yes" ELSE "open", c |-> Creds(v)]
=============================================================================
