----------------------------- MODULE TraceDate -----------------------------
(* Recorded calls of the date and time operations. Arguments are in r.n as   *)
(* BigInts; outputs behind pointers in r.bufs, of integer type r.ty.         *)
EXTENDS Calendar, TimeArith, TLC, Json, IOUtils, FiniteSets

Types == [SINT |-> [w |-> 1, s |-> TRUE], INT |-> [w |-> 2, s |-> TRUE], DINT |-> [w |-> 4, s |-> TRUE], LINT |-> [w |-> 8, s |-> TRUE],
          USINT |-> [w |-> 1, s |-> FALSE], UINT |-> [w |-> 2, s |-> FALSE], UDINT |-> [w |-> 4, s |-> FALSE], ULINT |-> [w |-> 8, s |-> FALSE]]
FromMem(ty, b) == LET u == FromBytesLE(b)
                      w == Types[ty].w
                  IN IF Types[ty].s /\ b[w] >= 128 THEN Sub(u, Pow2(8 * w)) ELSE u
Holds(ty, v) == LET w == 8 * Types[ty].w IN
                IF Types[ty].s THEN Within(v, Neg(Pow2(w - 1)), Sub(Pow2(w - 1), One)) ELSE Within(v, Zero, Sub(Pow2(w), One))

Small(v) == Within(v, Big(-100000), Big(100000))
Expect(r, ok, v) ==
  IF ok THEN (IF r.out # "ok" THEN "the call was refused or failed (" \o r.out \o ") but has a result"
              ELSE IF r.r # v THEN "wrong result" ELSE IF r.g # 1 THEN "memory was changed" ELSE "ok")
  ELSE IF r.out = "panic" THEN "ok" ELSE "the call has no result but was not refused (" \o r.out \o ")"

(* outputs os, a sequence of expected BigInts in type r.ty                   *)
ExpectParts(r, os) ==
  IF \E i \in DOMAIN os : ~Holds(r.ty, os[i])
  THEN IF r.out = "panic" THEN "ok" ELSE "a part does not fit its type but the call was not refused (" \o r.out \o ")"
  ELSE IF r.out # "ok" THEN "the call was refused or failed (" \o r.out \o ") but has a result"
  ELSE IF \E i \in DOMAIN os : FromMem(r.ty, r.bufs[i]) # os[i] THEN "wrong part"
  ELSE IF r.g # 1 THEN "memory outside the outputs was changed" ELSE "ok"

ConcatDate(r) ==
  IF \E i \in 1..3 : ~Small(r.n[i]) THEN Expect(r, FALSE, Zero)
  ELSE LET y == ToInt(r.n[1])
           m == ToInt(r.n[2])
           d == ToInt(r.n[3])
       IN IF y < 1 \/ y > 9999 \/ ~IsDate(y, m, d) THEN Expect(r, FALSE, Zero)
          ELSE LET v == OfDay(DayNumber(y, m, d)) IN Expect(r, InI64(v), v)
DateParts(p) == LET t == DateOf(p.day) IN <<Big(t.y), Big(t.m), Big(t.d)>>
TimeParts(p) == <<Big(p.sec \div 3600), Big((p.sec \div 60) % 60), Big(p.sec % 60), Big(p.ns \div 1000000)>>
ConcatTod(r) ==
  IF \E i \in 1..4 : ~Small(r.n[i]) THEN Expect(r, FALSE, Zero)
  ELSE LET a(i) == ToInt(r.n[i]) IN
       Expect(r, a(1) \in 0..23 /\ a(2) \in 0..59 /\ a(3) \in 0..59 /\ a(4) \in 0..999, OfTime(a(1), a(2), a(3), a(4) * 1000000))
(* year .. millisecond; on the first representable day a refusal is allowed,  *)
(* as its midnight has no value                                              *)
ConcatDt(r) ==
  IF \E i \in 1..7 : ~Small(r.n[i]) THEN Expect(r, FALSE, Zero)
  ELSE LET a(i) == ToInt(r.n[i]) IN
       IF a(1) < 1 \/ a(1) > 9999 \/ ~IsDate(a(1), a(2), a(3)) \/ ~(a(4) \in 0..23 /\ a(5) \in 0..59 /\ a(6) \in 0..59 /\ a(7) \in 0..999)
       THEN Expect(r, FALSE, Zero)
       ELSE LET d == OfDay(DayNumber(a(1), a(2), a(3)))
                v == Add(d, OfTime(a(4), a(5), a(6), a(7) * 1000000))
            IN IF ~InI64(d) /\ InI64(v) /\ r.out = "panic" THEN "ok" ELSE Expect(r, InI64(v), v)
Midnight(v) == LET p == Parts(v) IN p.sec = 0 /\ p.ns = 0
InDay(v) == Leq(Zero, v) /\ Lt(v, NsPerDay)

(* --- texts ------------------------------------------------------------------ *)
Digit(c) == c >= 48 /\ c <= 57
Val(u) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, u)
AllDigits(u) == \A i \in DOMAIN u : Digit(u[i])
RECURSIVE ToZero(_, _)
ToZero(u, i) == IF u[i] = 0 THEN SubSeq(u, 1, i - 1) ELSE ToZero(u, i + 1)
Digits2(v) == <<48 + v \div 10, 48 + (v % 10)>>
DateText(day) == LET t == DateOf(day) IN
  <<48 + t.y \div 1000, 48 + ((t.y \div 100) % 10), 48 + ((t.y \div 10) % 10), 48 + (t.y % 10), 45>> \o Digits2(t.m) \o <<45>> \o Digits2(t.d)
ClockText(p) == Digits2(p.sec \div 3600) \o <<58>> \o Digits2((p.sec \div 60) % 60) \o <<58>> \o Digits2(p.sec % 60)
(* u is the clock time, with a fraction denoting exactly ns                  *)
IsClock(u, p) ==
  LET c == ClockText(p) IN
  /\ Len(u) >= 8 /\ SubSeq(u, 1, 8) = c
  /\ IF Len(u) = 8 THEN p.ns = 0
     ELSE LET f == SubSeq(u, 10, Len(u)) IN
          u[9] = 46 /\ Len(f) \in 1..9 /\ AllDigits(f) /\ Val(f) * 10^(9 - Len(f)) = p.ns
IsDateText(u, day) == u = DateText(day)
IsDtText(u, p) == Len(u) >= 19 /\ SubSeq(u, 1, 10) = DateText(p.day) /\ u[11] = 45 /\ IsClock(SubSeq(u, 12, Len(u)), p)

(* a duration: optional sign, then count and unit pairs, units descending    *)
Units == << [u |-> <<100>>, ns |-> NsPerDay], [u |-> <<104>>, ns |-> Mul(NsPerSec, Big(3600))], [u |-> <<109>>, ns |-> Mul(NsPerSec, Big(60))],
            [u |-> <<115>>, ns |-> NsPerSec], [u |-> <<109, 115>>, ns |-> Pow10(6)], [u |-> <<117, 115>>, ns |-> Pow10(3)], [u |-> <<110, 115>>, ns |-> One] >>
Letter(c) == c >= 97 /\ c <= 122
RECURSIVE SpanD(_, _)
SpanD(u, i) == IF i <= Len(u) /\ Digit(u[i]) THEN SpanD(u, i + 1) ELSE i
RECURSIVE SpanL(_, _)
SpanL(u, i) == IF i <= Len(u) /\ Letter(u[i]) THEN SpanL(u, i + 1) ELSE i
NoTerm == [ok |-> FALSE, v |-> Zero, k |-> 0]
(* value of the terms of u from i on; each unit after number `after`; a term *)
(* is non-zero, has no leading zero and, after the first, does not overflow  *)
(* into the next larger unit                                                 *)
RECURSIVE Terms(_, _, _)
Terms(u, i, after) ==
  IF i > Len(u) THEN [ok |-> TRUE, v |-> Zero, k |-> 0]
  ELSE LET a == SpanD(u, i)
           b == SpanL(u, a)
           ks == {k \in DOMAIN Units : Units[k].u = SubSeq(u, a, b - 1)}
       IN IF a = i \/ a - i > 9 \/ u[i] = 48 \/ ks = {} THEN NoTerm
          ELSE LET k == CHOOSE k \in ks : TRUE
                   v == Mul(Big(Val(SubSeq(u, i, a - 1))), Units[k].ns)
                   rest == Terms(u, b, k)
               IN IF k <= after \/ (k > 1 /\ ~Lt(v, Units[k - 1].ns)) THEN NoTerm
                  ELSE [ok |-> rest.ok, v |-> Add(v, rest.v), k |-> k]
IsDuration(u, v) ==
  IF v = Zero THEN Len(u) >= 2 /\ u[1] = 48 /\ \E k \in DOMAIN Units : SubSeq(u, 2, Len(u)) = Units[k].u
  ELSE LET w == IF v.s < 0 THEN SubSeq(u, 2, Len(u)) ELSE u
           t == Terms(w, 1, 0)
       IN w # <<>> /\ (v.s < 0 => u[1] = 45) /\ t.ok /\ t.v = Abs(v)

Textual(r) ==
  LET v == r.n[1] IN
  IF r.out # "ok" THEN "the conversion failed: " \o r.out
  ELSE IF r.g # 1 THEN "memory outside the result was changed"
  ELSE IF \A i \in DOMAIN r.bufs[1] : r.bufs[1][i] # 0 THEN "the result is not terminated"
  ELSE LET u == ToZero(r.bufs[1], 1)
           p == Parts(v)
       IN IF CASE r.op = "tDATE" -> IsDateText(u, p.day)
               [] r.op = "tTOD" -> IsClock(u, p)
               [] r.op = "tDT" -> IsDtText(u, p)
               [] r.op = "tTIME" -> IsDuration(u, v)
          THEN "ok" ELSE "the text " \o ToString(u) \o " does not denote the value"

(* --- the wall clock ----------------------------------------------------------
   n = <<reading at the call, nanoseconds every further reading adds>>; r.z the
   rule for local time: std and dst seconds east of UTC; summer time begins and
   ends on a weekday of a month (week 5: the last) at a second of the local day *)
NthWeekday(y, m, week, wd) ==
  LET first == DayNumber(y, m, 1)
      d == first + ((wd - Weekday(first) + 7) % 7) + 7 * (week - 1)
  IN IF d >= first + MonthLen(y, m) THEN d - 7 ELSE d
RuleAt(y, a, off) == Add(Mul(Big(NthWeekday(y, a.m, a.w, a.d)), Big(86400)), Big(a.at - off))
OffsetAt(z, sec) ==       \* sec: seconds since 1970 as BigInt
  IF z.dst = z.std THEN z.std
  ELSE LET day == FloorDivSmall(Add(sec, Big(z.std)), 86400)
           y == DateOf(ToInt(day.q)).y
           from == RuleAt(y, z.a, z.std)
           to == RuleAt(y, z.b, z.dst)
           summer == IF Lt(from, to) THEN Leq(from, sec) /\ Lt(sec, to) ELSE ~(Leq(to, sec) /\ Lt(sec, from))
       IN IF summer THEN z.dst ELSE z.std
LocalNs(z, t) ==
  LET a == FloorDivSmall(t, 100000)
      sec == FloorDivSmall(a.q, 10000)
      p == Parts(Add(t, Mul(Big(OffsetAt(z, sec.q)), NsPerSec)))
  IN Add(Mul(Big(p.sec), NsPerSec), Big(p.ns))
Clock(r) ==
  IF r.out # "ok" THEN "the call failed: " \o r.out
  ELSE IF ~InDay(r.r) THEN "not a time of day"
  ELSE IF \E k \in 0..12 : r.r = LocalNs(r.z, Add(r.n[1], MulI(r.n[2], k))) THEN "ok"
  ELSE "not the local time of day of any instant during the call"

(* the machine's own clock read before (n[1]) and after (n[2]) the call      *)
RealClock(r) ==
  IF r.out # "ok" \/ ~InDay(r.r) THEN "not a time of day"
  ELSE LET off(t) == Add(LocalNs(r.z, t), IF Lt(LocalNs(r.z, t), LocalNs(r.z, r.n[1])) THEN NsPerDay ELSE Zero)
           x == IF Lt(r.r, LocalNs(r.z, r.n[1])) THEN Add(r.r, NsPerDay) ELSE r.r
       IN IF Leq(off(r.n[1]), x) /\ Leq(x, off(r.n[2])) THEN "ok" ELSE "not the local time of day of any instant during the call"

DateVerdict(r) ==
  IF r.out = "nosym" THEN "not exported"
  ELSE CASE r.op = "cdate" -> ConcatDate(r)
         [] r.op = "sdate" -> ExpectParts(r, DateParts(Parts(r.n[1])))
         [] r.op = "dow" -> Expect(r, TRUE, Big(Weekday(Parts(r.n[1]).day)))
         [] r.op = "cdt" -> ConcatDt(r)
         [] r.op = "ctod" -> ConcatTod(r)
         [] r.op = "stod" -> ExpectParts(r, TimeParts(Parts(r.n[1])))
         [] r.op = "sdt" -> LET p == Parts(r.n[1]) IN ExpectParts(r, DateParts(p) \o TimeParts(p))
         [] r.op = "dt2d" -> LET v == OfDay(Parts(r.n[1]).day) IN Expect(r, InI64(v), v)
         [] r.op = "dt2t" -> Expect(r, TRUE, Sub(r.n[1], OfDay(Parts(r.n[1]).day)))
         [] r.op = "join" -> LET v == Add(r.n[1], r.n[2]) IN
                             IF Midnight(r.n[1]) /\ InDay(r.n[2]) THEN Expect(r, InI64(v), v) ELSE "ok"
         [] r.op = "sum" -> LET e == Sum(r.name, r.n[1], r.n[2]) IN Expect(r, e.ok, e.v)
         [] r.op = "mul" -> LET e == Product(r.n[1], r.n[2]) IN Expect(r, e.ok, e.v)
         [] r.op = "div" -> IF ~Divides(r.n[1], r.n[2]) THEN Expect(r, FALSE, Zero)
                            ELSE IF r.out # "ok" THEN "the call was refused or failed (" \o r.out \o ") but has a result"
                            ELSE IF IsQuotient(r.r, r.n[1], r.n[2]) THEN "ok" ELSE "not the truncated quotient"
         [] r.op \in {"rmul", "rdiv"} -> Scale(r.f, r.op = "rmul", r.out, IF r.out = "ok" THEN r.r ELSE Zero, r.n[1], Dec(r.f, r.x))
         [] r.op \in {"tDATE", "tTOD", "tDT", "tTIME"} -> Textual(r)
         [] r.op = "clock" -> Clock(r)
         [] r.op = "real" -> RealClock(r)
DateClass(r) == r.op \o "." \o r.ty \o "." \o (IF Len(r.n) > 0 THEN (IF r.n[1].s < 0 THEN "neg" ELSE "pos") ELSE "") \o "." \o r.out

VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- DateVerdict, Class <- DateClass
=============================================================================
