------------------------------ MODULE TracePure -----------------------------
(* What an observer of many calls has seen: a record is a function with its   *)
(* arguments and every different outcome any call of it had (in any build, at *)
(* any time). MCPure's memo must explain them all, so there is one outcome.   *)
EXTENDS Outcome, TLC, Json, IOUtils

Same(a, b) == SameAnswer(a, b) /\ a.mem = b.mem
PureVerdict(r) ==
  IF \A i \in DOMAIN r.seen : Same(r.seen[1], r.seen[i]) THEN "ok"
  ELSE "the same call has different outcomes: " \o ToString(r.seen)
PureClass(r) == IF r.seen[1].out = "ok" THEN "answered" ELSE "refused"
VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- PureVerdict, Class <- PureClass
=============================================================================
