------------------------------ MODULE MCTimers ------------------------------
(* Exhaustive check of the timers against their definition by history.       *)
(* The history variable h records every call; the invariants state what Q    *)
(* and ET must be as a function of the whole history, without reference to   *)
(* the hidden state the state machine uses.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kind, MaxCalls, PTs, Steps
INSTANCE Timers WITH TZero <- 0, TSub <- LAMBDA a, b : a - b, TLeq <- LAMBDA a, b : a <= b

VARIABLES s, now, h
vars == <<s, now, h>>

Init == s = Fresh /\ now = 0 /\ h = <<>>
Call(in, pt, dt) ==
  /\ Len(h) < MaxCalls
  /\ now' = now + dt
  /\ s' = Step(Kind, s, in, pt, now')
  /\ h' = Append(h, [in |-> in, pt |-> pt, t |-> now'])
Next == \E in \in BOOLEAN, pt \in PTs, dt \in Steps : Call(in, pt, dt)
Spec == Init /\ [][Next]_vars

(* ---- declarative definitions over the history ---------------------------- *)
N == Len(h)
In(i) == i >= 1 /\ h[i].in
T(i) == h[i].t
PT == h[N].pt
IsRise(i) == In(i) /\ ~In(i - 1)
IsFall(i) == ~In(i) /\ In(i - 1)
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a <= b THEN a ELSE b

(* on-delay: the unbroken run of true inputs ending at call N                *)
TonSince == {j \in 1..N : IsRise(j) /\ \A k \in j..N : In(k)}
TonQ == TonSince # {} /\ T(N) - T(MaxSet(TonSince)) > PT
TonET == IF TonSince = {} THEN 0 ELSE Min2(PT, T(N) - T(MaxSet(TonSince)))

(* off-delay: the last falling edge with IN false ever since                 *)
TofSince == {j \in 1..N : IsFall(j) /\ \A k \in j..N : ~In(k)}
TofQ == In(N) \/ (TofSince # {} /\ T(N) - T(MaxSet(TofSince)) <= PT)
TofET == IF In(N) \/ TofSince = {} THEN 0 ELSE Min2(PT, T(N) - T(MaxSet(TofSince)))

(* pulse: j opens an interval iff IN rises at j and no earlier interval is   *)
(* still within its PT at j; an interval ends at the first call that finds   *)
(* it over with IN false, or at the call that opens the next one             *)
RECURSIVE Opens(_)
RECURSIVE Open(_)
Over(j, k) == T(k) - T(j) > h[k].pt
Open(k) == (* the opening call of the interval still measured before call k, or 0 *)
  IF k <= 1 THEN 0
  ELSE IF Opens(k - 1) THEN k - 1
  ELSE LET j == Open(k - 1) IN
       IF j = 0 THEN 0 ELSE IF Over(j, k - 1) /\ ~In(k - 1) THEN 0 ELSE j
Opens(k) == IsRise(k) /\ (Open(k) = 0 \/ Over(Open(k), k))
TpAt == IF Opens(N) THEN N ELSE Open(N)
TpQ == TpAt # 0 /\ ~Over(TpAt, N)
TpET == IF TpAt = 0 \/ (Over(TpAt, N) /\ ~In(N)) THEN 0 ELSE Min2(PT, T(N) - T(TpAt))

HistoryDefinesOutputs ==
  N > 0 => CASE Kind = "TON" -> s.q = TonQ /\ s.et = TonET
             [] Kind = "TOF" -> s.q = TofQ /\ s.et = TofET
             [] Kind = "TP"  -> s.q = TpQ /\ s.et = TpET

(* ---- general safety ------------------------------------------------------ *)
ETBounded == s.et >= 0 /\ (N > 0 => s.et <= MaxSet({h[i].pt : i \in 1..N}) /\ s.et <= now)
EdgeMemory == N > 0 => s.mem = h[N].in
TonRunIsInput == Kind = "TON" => s.run = s.mem
TofFreshStaysOff == Kind = "TOF" => ((\A i \in 1..N : ~h[i].in) => ~s.q /\ s.et = 0)
(* a pulse once started is seen at the call that started it, whatever PT     *)
TpEveryPulseVisible == (Kind = "TP" /\ N > 0 /\ Opens(N)) => s.q
(* within one interval with a fixed PT, ET only grows                        *)
ETMonotone == [][(s.run /\ s'.run /\ s'.start = s.start /\ N > 0 /\ h'[N + 1].pt = h[N].pt) => s'.et >= s.et]_vars
=============================================================================
