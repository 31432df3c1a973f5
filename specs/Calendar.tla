------------------------------ MODULE Calendar ------------------------------
(* Days since 1970-01-01 as dates of the Gregorian calendar, and the texts that *)
(* are made of them.                                                            *)
EXTENDS Text
Leap(y) == (y % 4) = 0 /\ ((y % 100) # 0 \/ (y % 400) = 0)
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* days before the 1st of January of year y; a year begins in March for counting *)
Era(z) == (z + 719468) \div 146097
Civil(z) ==
    LET era == Era(z)
        doe == (z + 719468) - (era * 146097)
        yoe == (((doe - (doe \div 1460)) + (doe \div 36524)) - (doe \div 146096)) \div 365
        doy == doe - (((365 * yoe) + (yoe \div 4)) - (yoe \div 100))
        mp == ((5 * doy) + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN [y |-> yoe + (era * 400) + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> (doy - (((153 * mp) + 2) \div 5)) + 1, w |-> (z + 4) % 7]
DayName(w) == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>[w + 1]
MonthName(m) == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>[m]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Names3 == [x \in {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"} |->
    CASE x = "Sun" -> <<83, 117, 110>> [] x = "Mon" -> <<77, 111, 110>> [] x = "Tue" -> <<84, 117, 101>> [] x = "Wed" -> <<87, 101, 100>>
      [] x = "Thu" -> <<84, 104, 117>> [] x = "Fri" -> <<70, 114, 105>> [] x = "Sat" -> <<83, 97, 116>>
      [] x = "Jan" -> <<74, 97, 110>> [] x = "Feb" -> <<70, 101, 98>> [] x = "Mar" -> <<77, 97, 114>> [] x = "Apr" -> <<65, 112, 114>>
      [] x = "May" -> <<77, 97, 121>> [] x = "Jun" -> <<74, 117, 110>> [] x = "Jul" -> <<74, 117, 108>> [] x = "Aug" -> <<65, 117, 103>>
      [] x = "Sep" -> <<83, 101, 112>> [] x = "Oct" -> <<79, 99, 116>> [] x = "Nov" -> <<78, 111, 118>> [] OTHER -> <<68, 101, 99>>]
Clock(s) == Two(s \div 3600) \o <<58>> \o Two((s \div 60) % 60) \o <<58>> \o Two(s % 60)
Ymd(c) == Two(c.d) \o <<32>> \o Names3[MonthName(c.m)] \o <<32>> \o Dec(c.y)
WithDay(c) == Names3[DayName(c.w)] \o <<44, 32>> \o Ymd(c)
(* the form of RFC 9110 *)
HttpDate(c, s) == WithDay(c) \o <<32>> \o Clock(s) \o <<32, 71, 77, 84>>
PlainDate(c, s) == Ymd(c) \o <<32>> \o Clock(s)
=============================================================================
