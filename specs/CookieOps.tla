------------------------------ MODULE CookieOps ------------------------------
(* Cookies of a request (jar) and what a response has to tell the client        *)
(* (told): per lower case name the last call, "set" with value and attribute    *)
(* set, "del" for a known cookie, "may" for the deletion of an unknown one.     *)
EXTENDS Text
(* the jar is a set of [n, v] with unique n; told a set of [n, k, v, a] *)
Put(S, x) == {y \in S : y.n # x.n} \cup {x}
Drop(S, n) == {y \in S : y.n # n}
Known(S, n) == \E y \in S : y.n = n
Of(S, n) == CHOOSE y \in S : y.n = n
FromString(s) ==
    LET P == Split(s, 59)
        Q == {i \in DOMAIN P : LET x == Trim(P[i]) e == Index(x, 61) IN e > 1}
    IN {LET x == Trim(P[i]) e == Index(x, 61) IN [n |-> Lower(Trim(Sub(x, 1, e - 1))), v |-> Trim(From(x, e + 1))] : i \in Q}
Fresh == [jar |-> {}, told |-> {}]
Mutators == {"empty", "new", "req", "copy", "move", "assign", "massign", "set", "del"}
Step1(st, o) ==
    LET c == st[o.s]  n == Lower(o.n) IN
    CASE o.op = "empty" -> [st EXCEPT ![o.s] = Fresh]
      [] o.op \in {"new", "req"} -> [st EXCEPT ![o.s] = [jar |-> FromString(o.v), told |-> {}]]
      [] o.op \in {"copy", "assign"} -> [st EXCEPT ![o.s] = st[o.o]]
      [] o.op \in {"move", "massign"} -> [[st EXCEPT ![o.o] = Fresh] EXCEPT ![o.s] = st[o.o]]
      [] o.op = "set" -> [st EXCEPT ![o.s] = [jar |-> Put(c.jar, [n |-> n, v |-> o.v]),
                                             told |-> Put(c.told, [n |-> n, k |-> "set", v |-> o.v, a |-> o.a])]]
      [] o.op = "del" -> [st EXCEPT ![o.s] = [jar |-> Drop(c.jar, n),
                                             told |-> IF Known(c.jar, n) /\ Of(c.jar, n).v # <<>> THEN Put(c.told, [n |-> n, k |-> "del", v |-> <<>>, a |-> 0])
                                                      ELSE IF Known(c.told, n) /\ Of(c.told, n).k \in {"del", "may"} THEN c.told
                                                      ELSE IF Known(c.told, n) THEN Put(c.told, [n |-> n, k |-> "del", v |-> <<>>, a |-> 0])
                                                      ELSE Put(c.told, [n |-> n, k |-> "may", v |-> <<>>, a |-> 0])]]
      [] OTHER -> st
(* ---- Set-Cookie lines *)
Secure == <<115, 101, 99, 117, 114, 101>>
HttpOnly == <<104, 116, 116, 112, 111, 110, 108, 121>>
Path == <<112, 97, 116, 104>>
Expires == <<101, 120, 112, 105, 114, 101, 115>>
MaxAge == <<109, 97, 120, 45, 97, 103, 101>>
SameSite == <<115, 97, 109, 101, 115, 105, 116, 101>>
Domain == <<100, 111, 109, 97, 105, 110>>
Partitioned == <<112, 97, 114, 116, 105, 116, 105, 111, 110, 101, 100>>
T2077 == <<50, 51, 32, 79, 99, 116, 32, 50, 48, 55, 55, 32, 48, 56, 58, 50, 56, 58, 48, 48, 32, 71, 77, 84>>
Attrs(a) == CASE a = 0 -> {} [] a = 1 -> {<<Secure, <<>>>>} [] a = 2 -> {<<HttpOnly, <<>>>>, <<Path, <<47>>>>}
              [] a = 3 -> {<<Expires, T2077>>, <<Secure, <<>>>>}
              [] a = 4 -> {<<MaxAge, <<51, 54, 48, 48>>>>, <<SameSite, <<76, 97, 120>>>>, <<Partitioned, <<>>>>}
              [] OTHER -> {<<Domain, <<101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>}
Pair(x) == LET y == Trim(x) e == Index(y, 61) IN IF e = 0 THEN <<Lower(y), <<>>>> ELSE <<Lower(Trim(Sub(y, 1, e - 1))), Trim(From(y, e + 1))>>
Parsed(s) == LET P == Split(s, 59) IN [n |-> Pair(P[1])[1], v |-> Pair(P[1])[2], k |-> Len(P) - 1, a |-> {Pair(P[i]) : i \in 2..Len(P)}]
(* the cookie-date of RFC 6265, 5.1.1 *)
IsSep(b) == b = 9 \/ (b \in 32..47) \/ (b \in 59..64) \/ (b \in 91..96) \/ (b \in 123..126)
RECURSIVE Tokens(_, _, _)
Tokens(s, i, cur) == IF i > Len(s) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
                     ELSE IF IsSep(s[i]) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Tokens(s, i + 1, <<>>)
                     ELSE Tokens(s, i + 1, Append(cur, s[i]))
Dig(b) == b \in 48..57
AllDig(s) == s # <<>> /\ \A i \in DOMAIN s : Dig(s[i])
Dec(s) == Num(s)
Months == <<<<106, 97, 110>>, <<102, 101, 98>>, <<109, 97, 114>>, <<97, 112, 114>>, <<109, 97, 121>>, <<106, 117, 110>>, <<106, 117, 108>>, <<97, 117, 103>>, <<115, 101, 112>>, <<111, 99, 116>>, <<110, 111, 118>>, <<100, 101, 99>>>>
IsTime(s) == LET P == Split(s, 58) IN Len(P) = 3 /\ \A i \in 1..3 : AllDig(P[i]) /\ Len(P[i]) \in 1..2
IsDay(s) == AllDig(s) /\ Len(s) \in 1..2
IsMonth(s) == Len(s) >= 3 /\ \E m \in 1..12 : Months[m] = Lower(Sub(s, 1, 3))
IsYear(s) == AllDig(s) /\ Len(s) \in 2..4
First(T, D, P(_)) == LET I == {i \in DOMAIN T \ D : P(T[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
(* <<y, m, d, h, mi, s>> or <<>> *)
Date(s) ==
    LET T == Tokens(s, 1, <<>>)
        ti == First(T, {}, IsTime)
        da == First(T, {ti}, IsDay)
        mo == First(T, {ti, da}, IsMonth)
        ye == First(T, {ti, da, mo}, IsYear)
    IN IF 0 \in {ti, da, mo, ye} THEN <<>>
       ELSE LET h == Split(T[ti], 58)
                y0 == Dec(T[ye])
                y == IF y0 \in 70..99 THEN y0 + 1900 ELSE IF y0 \in 0..69 THEN y0 + 2000 ELSE y0
                m == CHOOSE m \in 1..12 : Months[m] = Lower(Sub(T[mo], 1, 3))
                r == <<y, m, Dec(T[da]), Dec(h[1]), Dec(h[2]), Dec(h[3])>>
            IN IF y < 1601 \/ r[3] \notin 1..31 \/ r[4] > 23 \/ r[5] > 59 \/ r[6] > 59 THEN <<>> ELSE r
Before(a, b) == \E i \in 1..6 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
(* RFC 6265: Max-Age wins over Expires *)
Gone(a, now) == LET M == {x \in a : x[1] = MaxAge} E == {x \in a : x[1] = Expires} IN
                IF M # {} THEN \A x \in M : x[2] # <<>> /\ (x[2][1] = 45 \/ x[2] = <<48>>)
                ELSE E # {} /\ \A x \in E : Date(x[2]) # <<>> /\ Before(Date(x[2]), now)
LineOk(x, c, now) == IF c.k = "set" THEN x.v = c.v /\ x.a = Attrs(c.a) /\ x.k = Cardinality(x.a) ELSE Gone(x.a, now)
LinesOk(told, lines, now) ==
    LET L == {[i |-> i, c |-> Parsed(lines[i])] : i \in DOMAIN lines} IN
    /\ \A x \in L : \E c \in told : c.n = x.c.n /\ LineOk(x.c, c, now)
    /\ \A x, y \in L : x.c.n = y.c.n => x.i = y.i
    /\ \A c \in told : c.k \in {"set", "del"} => \E x \in L : x.c.n = c.n
FirstLine == <<102, 105, 114, 115, 116, 61, 49>>
ResOk(st, o, r, now) ==
    LET c == st[o.s]  n == Lower(o.n)  K == {x \in c.jar : x.v # <<>>} IN
    CASE o.op \in Mutators -> r.k = "done"
      [] o.op = "get" -> r.k = "v" /\ r.v = (IF Known(c.jar, n) THEN Of(c.jar, n).v ELSE <<>>)
      [] o.op = "has" -> IF Known(K, n) THEN r.k = "true" ELSE IF Known(c.jar, n) THEN r.k \in {"true", "false"} ELSE r.k = "false"
      [] o.op = "size" -> r.k = "n" /\ r.n \in Cardinality(K)..Cardinality(c.jar)
      [] o.op = "entries" -> r.k = "l" /\ LET E == {[n |-> Lower(r.l[2 * i - 1]), v |-> r.l[2 * i]] : i \in 1..(Len(r.l) \div 2)} IN
                                          K \subseteq E /\ E \subseteq c.jar /\ 2 * Cardinality(E) = Len(r.l)
      [] o.op = "ser" -> r.k = "l" /\ LinesOk(c.told, r.l, now)
      [] o.op = "resp" -> r.k = "l" /\ FirstLine \in {r.l[i] : i \in DOMAIN r.l}
                          /\ LET f == CHOOSE i \in DOMAIN r.l : r.l[i] = FirstLine IN LinesOk(c.told, Sub(r.l, 1, f - 1) \o From(r.l, f + 1), now)
      [] OTHER -> FALSE
=============================================================================
