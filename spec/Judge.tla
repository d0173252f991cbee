------------------------------- MODULE Judge -------------------------------
(* Trace validation of recorded calls of stateless operations.               *)
(* Every recorded call is one step; Verdict(r) is "ok" when the              *)
(* specification allows the recorded outcome, "known:<Name>" when it is a    *)
(* deviation the specification names, and otherwise the reason why the       *)
(* record is rejected. Validation continues after a rejection. Class(r)      *)
(* names the case of the specification the call falls into, for coverage.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Verdict(_), Class(_)

(* the trace, read once (register 1)                                         *)
Recs == TLCGet(1)

VARIABLES l, bad, cov
vars == <<l, bad, cov>>

Report(r, v) ==
  IF v = "ok" THEN TRUE
  ELSE IF Len(v) > 6 /\ SubSeq(v, 1, 6) = "known:" THEN PrintT(<<"KNOWN", r.id, SubSeq(v, 7, Len(v))>>)
  ELSE PrintT(<<"REJECT", r.id, v>>)
Bump(c, x) == IF x \in DOMAIN c THEN [c EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ c

Init == TLCSet(1, ndJsonDeserialize(IOEnv.TRACE)) /\ l = 0 /\ bad = 0 /\ cov = <<>>
Next == /\ l < Len(Recs)
        /\ l' = l + 1
        /\ LET r == Recs[l + 1]
               v == Verdict(r)
           IN /\ Report(r, v)
              /\ bad' = IF v = "ok" THEN bad ELSE bad + 1
              /\ cov' = Bump(cov, Class(r))
        /\ IF l' = Len(Recs) THEN PrintT(<<"COV", ToJson(cov')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
