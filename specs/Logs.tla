------------------------------- MODULE Logs -------------------------------
(* What a server writes to its two logs about one connection. A connection is  *)
(* a record: host, port; steps: the requests that were answered, each with id   *)
(* rid, method m, path p, kind k (what became of it) and status code; fin: how  *)
(* the connection ended. o: t (transport events), r (requests).                 *)
EXTENDS Naturals, Sequences
(* kinds:  plain - answered with code;  crash - the handler threw: code 500     *)
(* refused - an upgrade was refused: answered with code and the end             *)
(* caught - refused, and the handler answered itself;  sse, ws - upgraded       *)
(* ssecrash, wscrash - the handler threw after the upgrade                      *)
(* lost - the client was gone: it may have been answered or not                 *)
(* fin: closed; error (the connection was given up); any                        *)
Addr(c, o) == IF o.t THEN c.cid ELSE c.host
Up(s) == IF s.k \in {"sse", "ssecrash"} THEN "SSE stream" ELSE "Websocket"
(* sets of the possible lists of lines: lines an upgrade that was refused may leave are optional *)
Line(c, o, s, res) == <<[k |-> "req", rid |-> s.rid, addr |-> Addr(c, o), m |-> s.m, p |-> s.p, res |-> res]>>
StepOut(c, o, s) ==
    IF ~o.r THEN {<<>>}
    ELSE CASE s.k \in {"plain", "crash"} -> {Line(c, o, s, s.code)}
           [] s.k \in {"refused", "caught"} -> {Line(c, o, s, s.code), Line(c, o, s, "Websocket") \o Line(c, o, s, s.code)}
           [] s.k \in {"sse", "ws", "ssecrash", "wscrash"} -> {Line(c, o, s, Up(s))}
           [] s.k = "lost" -> {<<>>, Line(c, o, s, s.code)}
           [] OTHER -> {}
StepErr(c, o, s) ==
    IF ~o.r THEN {<<>>}
    ELSE CASE s.k \in {"crash", "ssecrash", "wscrash"} -> {<<[k |-> "crash", rid |-> s.rid, addr |-> Addr(c, o)]>>}
           [] s.k = "refused" -> {<<[k |-> "aborted", rid |-> s.rid, addr |-> Addr(c, o)]>>}
           [] OTHER -> {<<>>}
BeginOut(c, o) == IF o.t THEN <<[k |-> "created", cid |-> c.cid, host |-> c.host, port |-> c.port]>> ELSE <<>>
EndOut(c, o) == IF o.t THEN <<[k |-> "closed", cid |-> c.cid, host |-> c.host]>> ELSE <<>>
EndErr(c, o) == IF o.t \/ o.r THEN <<[k |-> "terminated", cid |-> c.cid, host |-> c.host]>> ELSE <<>>
=============================================================================
