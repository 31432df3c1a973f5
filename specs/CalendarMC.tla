----------------------------- MODULE CalendarMC -----------------------------
(* A calendar that is turned one day at a time agrees with the count of days.  *)
EXTENDS Calendar
CONSTANTS Before, Last, Bug
VARIABLES z, c
Init == z = -Before /\ c = [y |-> 1900, m |-> 1, d |-> 1, w |-> 1]
BLeap(y) == CASE Bug = "nocentury" -> (y % 4) = 0 [] Bug = "no400" -> (y % 4) = 0 /\ (y % 100) # 0 [] OTHER -> Leap(y)
BDays(y, m) == IF m = 2 THEN (IF BLeap(y) THEN 29 ELSE 28) ELSE DaysIn(y, m)
Next == /\ z < Last /\ z' = z + 1
        /\ c' = [y |-> IF c.m = 12 /\ c.d = 31 THEN c.y + 1 ELSE c.y,
                 m |-> IF c.d < BDays(c.y, c.m) THEN c.m ELSE (c.m % 12) + 1,
                 d |-> IF c.d < BDays(c.y, c.m) THEN c.d + 1 ELSE 1, w |-> (c.w + 1) % 7]
Spec == Init /\ [][Next]_<<z, c>>
Same == Civil(z) = c
=============================================================================
