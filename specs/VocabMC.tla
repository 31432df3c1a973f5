------------------------------- MODULE VocabMC -------------------------------
(* A reader of basic credentials that goes over the decoded text once, and the *)
(* encoder: reading what was written gives the user and the password back.     *)
EXTENDS Vocab
CONSTANTS Bytes, Max, Bug
VARIABLES user, pass, text, at, u, p, mode
vars == <<user, pass, text, at, u, p, mode>>
Texts == UNION {[1..i -> Bytes] : i \in 0..Max}
Init == /\ user \in {x \in Texts : 58 \notin Range(x)} /\ pass \in Texts
        /\ text = UnB64(Strip(From(Header(user, pass), 7)))
        /\ at = 1 /\ u = <<>> /\ p = <<>> /\ mode = "user"
Step == /\ mode # "done" /\ UNCHANGED <<user, pass, text>>
        /\ IF at > Len(text) THEN mode' = "done" /\ UNCHANGED <<at, u, p>>
           ELSE /\ at' = at + 1
                /\ (IF mode = "user" THEN IF text[at] = 58 THEN mode' = "pass" /\ UNCHANGED <<u, p>> ELSE u' = Append(u, text[at]) /\ UNCHANGED <<p, mode>>
                    ELSE IF text[at] = 58 /\ Bug = "lastcolon" THEN u' = u \o <<58>> \o p /\ p' = <<>> /\ UNCHANGED mode
                    ELSE IF text[at] = 58 /\ Bug = "stop" THEN at' = Len(text) + 1 /\ UNCHANGED <<u, p, mode>>
                    ELSE p' = Append(p, text[at]) /\ UNCHANGED <<u, mode>>)
Spec == Init /\ [][Step]_vars
Back == mode = "done" => u = user /\ p = pass
Agrees == Basic(Header(user, pass)) = [is |-> "yes", c |-> <<user, pass>>]
(* the tables are what they should be *)
Tables == /\ \A c \in Codes : c \in 100..599 /\ Type(c) = c \div 100
          /\ \A i \in DOMAIN Names : MethodOf(Names[i]) = i /\ MethodOf(<<32>> \o Lower(Names[i]) \o <<13, 10>>) = i
=============================================================================
