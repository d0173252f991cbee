---------------------------- MODULE MCTimersLive ----------------------------
(* Timers over histories of every length, with time that goes on.            *)
(* Only the age of an interval matters, and an age beyond the largest preset *)
(* behaves like any other such age: the clock stands still at 0, intervals   *)
(* age backwards and ages are cut at Cap, so the state space is finite and   *)
(* complete for the given presets. Fairness: calls are made and time passes. *)
EXTENDS Integers
CONSTANTS Kind, PTs, Steps
INSTANCE Timers WITH TZero <- 0, TSub <- LAMBDA a, b : a - b, TLeq <- LAMBDA a, b : a <= b

MaxPT == CHOOSE p \in PTs : \A x \in PTs : x <= p
Cap == MaxPT + 1
Max2(a, b) == IF a >= b THEN a ELSE b

VARIABLES s, in, pt, tick
vars == <<s, in, pt, tick>>

Aged(dt) == IF s.run THEN [s EXCEPT !.start = Max2(s.start - dt, 0 - Cap)] ELSE s
Init == s = Fresh /\ in = FALSE /\ pt = 0 /\ tick = 0
Call(i, p, dt) == s' = Step(Kind, Aged(dt), i, p, 0) /\ in' = i /\ pt' = p /\ tick' = 1 - tick
Next == \E i \in BOOLEAN, p \in PTs, dt \in Steps : Call(i, p, dt)
Passing == \E i \in BOOLEAN, p \in PTs, dt \in Steps : dt > 0 /\ Call(i, p, dt)
Spec == Init /\ [][Next]_vars /\ WF_vars(Passing)

Age == 0 - s.start
(* --- on-delay: an input held long enough switches the output, and for good *)
TonComes == <>[]in => <>[]s.q
TonFull == \A p \in PTs : <>[](in /\ pt = p) => <>[](s.et = p)
TonNeverLate == [](s.q => in /\ s.run)
TonOnlyAfter == [](s.q <=> (in /\ s.run /\ Age > pt))
(* --- off-delay: the output falls in the end, and only then                 *)
TofGoes == <>[](~in) => <>[](~s.q)
TofHolds == [](in => s.q)
TofFull == \A p \in PTs : <>[](~in /\ pt = p) => <>[](s.et \in {0, p})
(* --- pulse: every pulse ends, an input at rest leaves the timer at rest    *)
TpEnds == [](s.q => <>(~s.q \/ Age = 0))
TpRests == (<>[]in \/ <>[](~in)) => <>[](~s.q)
TpIdle == <>[](~in) => <>[](s.et = 0)
TpAnswers == [][(in' /\ ~in /\ ~s.q /\ ~s.run) => s'.q]_vars
TpKeeps == [][(s.q /\ ~s'.q) => pt' < 0 - s'.start \/ ~s'.run]_vars

Temporal ==
  CASE Kind = "TON" -> TonComes /\ TonFull
    [] Kind = "TOF" -> TofGoes /\ TofFull
    [] Kind = "TP"  -> TpRests /\ TpIdle
Safe ==
  /\ s.et >= 0 /\ s.et <= MaxPT /\ s.mem = in
  /\ Kind = "TON" => (s.q <=> (in /\ s.run /\ Age > pt))
  /\ Kind = "TOF" => (in => s.q) /\ (s.q => in \/ (s.run /\ Age <= pt))
  /\ Kind = "TP" => (s.q => s.run /\ (Age <= pt \/ Age = 0))
=============================================================================
