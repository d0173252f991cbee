---------------------------- MODULE MCCalendar -----------------------------
(* Walks every day the 64-bit range touches, one Tomorrow at a time, with    *)
(* the day number and weekday counted along.                                 *)
EXTENDS Calendar, TLC
CONSTANT Days
VARIABLES t, n, w
Init == t = [y |-> 1677, m |-> 9, d |-> 21] /\ n = -106752 /\ w = 2
Next == n < Days - 106752 /\ t' = Tomorrow(t) /\ n' = n + 1 /\ w' = (w + 1) % 7
Spec == Init /\ [][Next]_<<t, n, w>>
Closed == DayNumber(t.y, t.m, t.d) = n /\ IsDate(t.y, t.m, t.d)
InverseOk == DateOf(n) = t
Week == Weekday(n) = w
(* the calendar repeats after 400 years *)
Period == DayNumber(t.y + 400, t.m, t.d) = n + 146097
(* the parts of a nanosecond value are within their day, for its ends and an odd moment *)
Moments == {Zero, One, OfTime(23, 59, 59, 999999999), OfTime(12, 34, 56, 7)}
PartsOk == \A x \in Moments : LET v == Add(OfDay(n), x)
                                  p == Parts(v)
                              IN /\ p.day = n /\ p.sec \in 0..86399 /\ p.ns \in 0..999999999
                                 /\ Add(OfDay(n), Add(Mul(Big(p.sec), NsPerSec), Big(p.ns))) = v
Ends == (InI64(OfDay(n)) <=> n \in FirstDay..LastDay)
(* known anchors *)
Anchors == /\ (t = [y |-> 1970, m |-> 1, d |-> 1]) => (n = 0 /\ w = 4)
           /\ (t = [y |-> 2000, m |-> 2, d |-> 29]) => (n = 11016 /\ w = 2)
           /\ (t = [y |-> 2262, m |-> 4, d |-> 11]) => n = 106751
           /\ t.m = 2 /\ t.d = 29 => t.y % 4 = 0 /\ t.y \notin {1700, 1800, 1900, 2100, 2200}
=============================================================================
