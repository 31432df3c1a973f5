------------------------------- MODULE Ident -------------------------------
(* How requests can be traced. A connection has a name of its own for as long as*)
(* it lasts, each of its requests another one; handlers are told both, and what *)
(* is sent back carries both. A step: told (what handlers were told: records of *)
(* cid, rid, host, port), resp (what came back: records with the list xid).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Label(cid, rid) == (cid \o "-") \o rid
(* the names in use on a connection *)
Cids(c) == {c.steps[i].told[j].cid : i \in {k \in DOMAIN c.steps : c.steps[k].told # <<>>}, j \in {1}}
Rids(c) == {c.steps[i].told[1].rid : i \in {k \in DOMAIN c.steps : c.steps[k].told # <<>>}}
Answered(s) == s.resp # <<>>
StepOk(c, s) ==
    /\ Len(s.told) <= 1 /\ (Answered(s) => Len(s.told) = 1)       \* a request is handled once
    /\ s.told # <<>> => s.told[1].host = c.host /\ s.told[1].port = c.port /\ s.told[1].cid # "" /\ s.told[1].rid # ""
    /\ Answered(s) => s.resp[1].xid = <<Label(s.told[1].cid, s.told[1].rid)>>
(* an answer to something that was no request has the name of the connection and a fresh one *)
LastOk(c, x) == \A i \in DOMAIN x : /\ Len(x[i].xid) = 1
                                   /\ \A cid \in Cids(c) : /\ Len(x[i].xid[1]) > Len(cid) + 1 /\ SubSeq(x[i].xid[1], 1, Len(cid) + 1) = cid \o "-"
                                                           /\ \A rid \in Rids(c) : x[i].xid[1] # Label(cid, rid)
ConnOk(c) ==
    /\ \A i \in DOMAIN c.steps : StepOk(c, c.steps[i])
    /\ Cardinality(Cids(c)) <= 1
    /\ Cardinality(Rids(c)) = Cardinality({i \in DOMAIN c.steps : c.steps[i].told # <<>>})
    /\ LastOk(c, c.last)
Apart(cs) == \A i, j \in DOMAIN cs : i < j => Cids(cs[i]) \cap Cids(cs[j]) = {} /\ Rids(cs[i]) \cap Rids(cs[j]) = {}
=============================================================================
