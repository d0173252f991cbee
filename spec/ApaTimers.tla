----------------------------- MODULE ApaTimers -----------------------------
(* The timers over unbounded clock readings and presets: an inductive        *)
(* invariant ties the state machine to an observer that keeps only what the  *)
(* definition of the outputs speaks of. Proved with Apalache: Init => Inv    *)
(* and Inv /\ Next => Inv', hence for histories of every length.             *)
EXTENDS Integers
CONSTANT
  \* @type: Str;
  Kind

TZero == 0
TSub(a, b) == a - b
TLeq(a, b) == a <= b
INSTANCE Timers WITH TZero <- TZero, TSub <- TSub, TLeq <- TLeq

VARIABLES
  \* @type: { mem: Bool, run: Bool, start: Int, q: Bool, et: Int };
  s,
  \* @type: Int;
  now,
  \* @type: Int;
  pt,
  \* IN at the last call
  \* @type: Bool;
  high,
  \* the call the definition measures from, if there is one
  \* @type: Bool;
  has,
  \* @type: Int;
  at

ConstTON == Kind = "TON"
ConstTOF == Kind = "TOF"
ConstTP == Kind = "TP"

Init == s = Fresh /\ now = 0 /\ pt = 0 /\ high = FALSE /\ has = FALSE /\ at = 0

Over(t, p) == has /\ t - at > p
Observe(in, p, t) ==
  /\ high' = in
  /\ IF Kind = "TON" THEN /\ has' = in
                          /\ at' = IF in /\ ~high THEN t ELSE at
     ELSE IF Kind = "TOF" THEN /\ has' = (~in /\ (has \/ high))
                               /\ at' = IF ~in /\ high THEN t ELSE at
     ELSE IF in /\ ~high /\ (~has \/ Over(t, p)) THEN has' = TRUE /\ at' = t
     ELSE /\ has' = (has /\ (in \/ ~Over(t, p)))
          /\ at' = at
Next == \E in \in BOOLEAN, p \in Int, d \in Int :
  /\ p >= 0 /\ d >= 0
  /\ now' = now + d /\ pt' = p
  /\ s' = Step(Kind, s, in, p, now')
  /\ Observe(in, p, now')

Min2(a, b) == IF a <= b THEN a ELSE b
(* what the program may read, in terms of the observer alone                 *)
Definition ==
  /\ s.q = (IF Kind = "TON" THEN has /\ now - at > pt
            ELSE IF Kind = "TOF" THEN high \/ (has /\ now - at <= pt)
            ELSE has /\ now - at <= pt)
  /\ s.et = (IF has THEN Min2(pt, now - at) ELSE 0)
(* ET never runs past the preset nor past the clock                          *)
ETBounded == s.et >= 0 /\ s.et <= pt /\ s.et <= now
Inv ==
  /\ now >= 0 /\ pt >= 0 /\ at >= 0 /\ (has => at <= now)
  /\ s.mem = high /\ s.run = has
  /\ (has => s.start = at) /\ (~has => s.start = 0)
  /\ (Kind = "TON" => has = high) /\ (Kind = "TOF" => ~(has /\ high))
  /\ Definition /\ ETBounded
IndInit ==
  /\ s \in [mem : BOOLEAN, run : BOOLEAN, start : Int, q : BOOLEAN, et : Int]
  /\ now \in Int /\ pt \in Int /\ at \in Int /\ high \in BOOLEAN /\ has \in BOOLEAN
  /\ Inv
=============================================================================
