------------------------------- MODULE Timers -------------------------------
(* The three IEC 61131-3 timer function blocks as state machines.            *)
(* One action per call; an instance's state is what the program can read     *)
(* (q, et) plus the hidden memory: mem (IN on the previous call), run (an    *)
(* interval is being measured) and start (clock reading of its first call).  *)
(* The number system of clock readings is a parameter, so the same module is *)
(* model-checked over small integers (MCTimers), proved over unbounded ones  *)
(* with Apalache (ApaTimers) and compared with recorded executions over      *)
(* exact 64-bit nanoseconds (TraceTimers).                                   *)
(* (types are annotated for Apalache, with integers as the numbers)           *)
(*
  @typeAlias: timer = { mem: Bool, run: Bool, start: Int, q: Bool, et: Int };
*)
Timers_aliases == TRUE
CONSTANTS
  \* @type: Int;
  TZero,
  \* @type: (Int, Int) => Int;
  TSub(_, _),
  \* @type: (Int, Int) => Bool;
  TLeq(_, _)


TMin(a, b) == IF TLeq(a, b) THEN a ELSE b

(* what zero-initialised memory means                                        *)
\* @type: $timer;
Fresh == [mem |-> FALSE, run |-> FALSE, start |-> TZero, q |-> FALSE, et |-> TZero]

\* @type: ($timer, Bool) => Bool;
Rising(s, in) == in /\ ~s.mem
\* @type: ($timer, Bool) => Bool;
Falling(s, in) == ~in /\ s.mem
\* @type: ($timer, Int) => Int;
Elapsed(s, now) == TSub(now, s.start)
\* @type: ($timer, Int, Int) => Bool;
InRange(s, pt, now) == TLeq(Elapsed(s, now), pt)

\* @type: (Bool, Bool, Int) => $timer;
Begin(in, q, now) == [mem |-> in, run |-> TRUE, start |-> now, q |-> q, et |-> TZero]
\* @type: (Bool, Bool) => $timer;
Idle(in, q) == [mem |-> in, run |-> FALSE, start |-> TZero, q |-> q, et |-> TZero]
Continue(s, in, q, pt, now) == [s EXCEPT !.mem = in, !.q = q, !.et = TMin(pt, Elapsed(s, now))]

(* --- on-delay ------------------------------------------------------------ *)
\* @type: ($timer, Bool, Int, Int) => $timer;
TONReset(s, in, pt, now) == Idle(in, FALSE)                       \* IN false
\* @type: ($timer, Bool, Int, Int) => $timer;
TONStart(s, in, pt, now) == Begin(in, FALSE, now)                 \* rising edge
\* @type: ($timer, Bool, Int, Int) => $timer;
TONTime(s, in, pt, now) == Continue(s, in, ~InRange(s, pt, now), pt, now)
\* @type: ($timer, Bool, Int, Int) => $timer;
TON(s, in, pt, now) ==
  IF ~in THEN TONReset(s, in, pt, now)
  ELSE IF ~s.run THEN TONStart(s, in, pt, now)
  ELSE TONTime(s, in, pt, now)

(* --- off-delay ------------------------------------------------------------ *)
\* @type: ($timer, Bool, Int, Int) => $timer;
TOFCancel(s, in, pt, now) == Idle(in, TRUE)                       \* rising edge
\* @type: ($timer, Bool, Int, Int) => $timer;
TOFHold(s, in, pt, now) == [s EXCEPT !.mem = in, !.q = TRUE]      \* IN stays true
\* @type: ($timer, Bool, Int, Int) => $timer;
TOFStart(s, in, pt, now) == Begin(in, TRUE, now)                  \* falling edge
\* @type: ($timer, Bool, Int, Int) => $timer;
TOFTime(s, in, pt, now) == Continue(s, in, InRange(s, pt, now), pt, now)
\* @type: ($timer, Bool, Int, Int) => $timer;
TOFOff(s, in, pt, now) == [s EXCEPT !.mem = in, !.q = FALSE]      \* never was on
\* @type: ($timer, Bool, Int, Int) => $timer;
TOF(s, in, pt, now) ==
  IF in THEN (IF Rising(s, in) THEN TOFCancel(s, in, pt, now) ELSE TOFHold(s, in, pt, now))
  ELSE IF Falling(s, in) THEN TOFStart(s, in, pt, now)
  ELSE IF s.run THEN TOFTime(s, in, pt, now)
  ELSE TOFOff(s, in, pt, now)

(* --- pulse ---------------------------------------------------------------- *)
\* @type: ($timer, Bool, Int, Int) => $timer;
TPPulse(s, in, pt, now) == Continue(s, in, TRUE, pt, now)         \* pulse running
\* @type: ($timer, Bool, Int, Int) => $timer;
TPStart(s, in, pt, now) == Begin(in, TRUE, now)                   \* rising edge, no pulse running
\* @type: ($timer, Bool, Int, Int) => $timer;
TPDone(s, in, pt, now) == Continue(s, in, FALSE, pt, now)         \* over, IN still true: ET stays
\* @type: ($timer, Bool, Int, Int) => $timer;
TPRelease(s, in, pt, now) == Idle(in, FALSE)                      \* over (or never started), IN false
\* @type: ($timer, Bool, Int, Int) => $timer;
TP(s, in, pt, now) ==
  IF s.run /\ InRange(s, pt, now) THEN TPPulse(s, in, pt, now)
  ELSE IF Rising(s, in) THEN TPStart(s, in, pt, now)
  ELSE IF in /\ s.run THEN TPDone(s, in, pt, now)
  ELSE TPRelease(s, in, pt, now)

Kinds == {"TON", "TOF", "TP"}
\* @type: (Str, $timer, Bool, Int, Int) => $timer;
Step(kind, s, in, pt, now) ==
  IF kind = "TON" THEN TON(s, in, pt, now)
  ELSE IF kind = "TOF" THEN TOF(s, in, pt, now)
  ELSE TP(s, in, pt, now)

(* which branch a call takes: used to measure coverage                       *)
\* @type: (Str, $timer, Bool, Int, Int) => Str;
Branch(kind, s, in, pt, now) ==
  IF kind = "TON" THEN (IF ~in THEN "TONReset" ELSE IF ~s.run THEN "TONStart"
                        ELSE IF InRange(s, pt, now) THEN "TONWait" ELSE "TONOn")
  ELSE IF kind = "TOF" THEN (IF in THEN (IF Rising(s, in) THEN (IF s.run THEN "TOFCancel" ELSE "TOFOn") ELSE "TOFHold")
                             ELSE IF Falling(s, in) THEN "TOFStart"
                             ELSE IF s.run THEN (IF InRange(s, pt, now) THEN "TOFDelay" ELSE "TOFExpired")
                             ELSE "TOFOff")
  ELSE (IF s.run /\ InRange(s, pt, now) THEN (IF in THEN "TPPulseHigh" ELSE "TPPulseLow")
        ELSE IF Rising(s, in) THEN (IF s.run THEN "TPRestart" ELSE "TPStart")
        ELSE IF in /\ s.run THEN "TPDone" ELSE IF s.run THEN "TPRelease" ELSE "TPIdle")
=============================================================================
