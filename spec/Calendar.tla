----------------------------- MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar as a transition system: Tomorrow is the  *)
(* only rule; day numbers and their inverse are defined in closed form and   *)
(* checked against it over the whole range of a 64-bit nanosecond count by   *)
(* MCCalendar. Day 0 is 1970-01-01; weekday 0 is Sunday.                     *)
EXTENDS BigInt

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
Tomorrow(t) == IF t.d < MonthLen(t.y, t.m) THEN [t EXCEPT !.d = @ + 1]
               ELSE IF t.m < 12 THEN [y |-> t.y, m |-> t.m + 1, d |-> 1]
               ELSE [y |-> t.y + 1, m |-> 1, d |-> 1]

IsDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
(* leap days before year y, counted from year 1                              *)
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
YearStart(y) == 365 * (y - 1970) + LeapsBefore(y) - LeapsBefore(1970)
MonthStart(y, m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
DayNumber(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1

RECURSIVE YearFrom(_, _)
YearFrom(n, y) == IF YearStart(y + 1) <= n THEN YearFrom(n, y + 1) ELSE y
YearOf(n) == YearFrom(n, IF n >= 0 THEN 1970 + n \div 366 ELSE 1970 + n \div 365)
DateOf(n) == LET y == YearOf(n)
                 k == n - YearStart(y)
                 m == CHOOSE m \in 1..12 : MonthStart(y, m) <= k /\ (m = 12 \/ k < MonthStart(y, m + 1))
             IN [y |-> y, m |-> m, d |-> k - MonthStart(y, m) + 1]
Weekday(n) == (n + 4) % 7

(* --- nanosecond values ------------------------------------------------------ *)
(* a 64-bit value as day number, second of the day and nanosecond            *)
Parts(v) == LET a == FloorDivSmall(v, 1000)
                b == FloorDivSmall(a.q, 1000)
                c == FloorDivSmall(b.q, 1000)
                e == FloorDivSmall(c.q, 86400)
            IN [day |-> ToInt(e.q), sec |-> e.r, ns |-> (c.r * 1000 + b.r) * 1000 + a.r]
NsPerSec == Mul(Big(100000), Big(10000))
NsPerDay == Mul(NsPerSec, Big(86400))
OfDay(n) == Mul(Big(n), NsPerDay)                   \* midnight of day n
OfTime(h, mi, s, ns) == Add(Mul(Big(3600 * h + 60 * mi + s), NsPerSec), Big(ns))

(* days whose midnight is representable                                      *)
FirstDay == -106751
LastDay == 106751
=============================================================================
