------------------------------ MODULE DatesMC ------------------------------
(* The calendar of Dates, walked day by day, and the laws of zones and text.    *)
EXTENDS Dates
CONSTANTS FirstYear, LastYear
VARIABLES n, y, m, d, w

Init == y \in FirstYear..LastYear /\ n = YearStart(y) /\ m = 1 /\ d = 1 /\ w = (n + 4) % 7
Next == /\ n' = n + 1
        /\ w' = (w + 1) % 7
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1 /\ y < LastYear

\* the walk and the formulas agree; 1 January 1970 was a Thursday
Calendar ==
    /\ DayOf(y, m, d) = n
    /\ LET c == Civil(n) IN c.y = y /\ c.m = m /\ c.d = d /\ c.wd = w /\ c.yd = n - YearStart(y) + 1
    /\ (n = 0 => y = 1970 /\ m = 1 /\ d = 1 /\ w = 4)

Hours == {0, 3599, 3600, 7199, 7200, 10799, 10800, 43199, 46800, 54000, 57600, 86399}
\* what a zone shows is shown at that instant; the hour skipped and the one repeated are the only ones without
\* exactly one instant; summer time changes on Sundays
ZoneLaws ==
    \A k \in 1..Len(Zones) : \A s \in (IF w = 0 THEN Hours ELSE {0, 43199}) :
        LET z == Zones[k]  i == <<n, s>>  l == Local(z, i) IN
        /\ i \in Instants(z, l)
        /\ (~z.dst => Cardinality(Instants(z, i)) = 1)
        /\ Cardinality(Instants(z, i)) \in 0..2
        /\ (Cardinality(Instants(z, i)) # 1 => w = 0)
TextLaws ==
    \A s \in {0, 43199, 86399} : LET i == <<n, s>> v == FromText(ToText(i, Default, FALSE, Zones[1]), Default) IN v.ok /\ Fields(v) = i
=============================================================================
