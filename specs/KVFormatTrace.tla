---------------------------- MODULE KVFormatTrace ----------------------------
(* One case per trace: a file, what opening it did, and the file afterwards. *)
EXTENDS KVFormat, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, done
AsMap(list) == [k \in {list[i].k : i \in 1..Len(list)} |-> list[CHOOSE i \in 1..Len(list) : list[i].k = k].v]
Init == t \in 1..Len(Cases) /\ done = FALSE
Refuse == LET c == Cases[t] IN ~Decode(c.before).ok /\ c.outcome = "refused" /\ c.after = c.before
Accept == LET c == Cases[t]  d == Decode(c.before)  a == Decode(c.after) IN
          d.ok /\ c.outcome = "opened" /\ AsMap(c.m) = d.m /\ c.size = Cardinality(DOMAIN d.m)
          /\ a.ok /\ a.m = d.m
Next == ~done /\ (Refuse \/ Accept) /\ done' = TRUE /\ t' = t /\ PrintT("ACC " \o ToString(t))
=============================================================================
