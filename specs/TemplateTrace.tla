---------------------------- MODULE TemplateTrace ----------------------------
EXTENDS Template, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, done
Init == t \in 1..Len(Cases) /\ done = FALSE
Next == LET c == Cases[t] IN
        ~done /\ c.out.k = "v" /\ c.out.v = Render(c.tpl, c.props) /\ done' = TRUE /\ t' = t /\ PrintT("ACC " \o ToString(t))
=============================================================================
