------------------------------ MODULE TraceFB ------------------------------
(* Trace validation of function-block instances: any number of instances of  *)
(* all function-block types, calls in any interleaving. st maps an instance  *)
(* to the state the specification is in after the calls recorded so far;     *)
(* only what the program can observe is compared, so hidden memory may be    *)
(* laid out in any way. An instance whose call was rejected is not judged    *)
(* any further (dead) until it is created anew.                              *)
EXTENDS FunctionBlocks, Json, IOUtils

Recs == TLCGet(1)

Judged(s, r) ==
  LET e == StepOf(s, r) IN
  IF r.out # "ok" THEN [v |-> "the call did not return: " \o r.out, e |-> e]
  ELSE IF ~r.iso THEN [v |-> "the call changed memory outside its instance", e |-> e]
  ELSE IF r.i2 # r.i THEN [v |-> "the call changed an input of its instance", e |-> e]
  ELSE IF r.o # Outputs(r.fb, e) THEN [v |-> "outputs differ from the specification: expected " \o ToJson(Outputs(r.fb, e)), e |-> e]
  ELSE [v |-> "ok", e |-> e]

VARIABLES l, bad, cov, st
vars == <<l, bad, cov, st>>
Bump(c, x) == IF x \in DOMAIN c THEN [c EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ c
Dead == [dead |-> TRUE]

Init == TLCSet(1, ndJsonDeserialize(IOEnv.TRACE)) /\ l = 0 /\ bad = 0 /\ cov = <<>> /\ st = <<>>
New(r) == r.ev = "new" /\ st' = (r.key :> FreshOf(r.fb)) @@ st /\ UNCHANGED <<bad, cov>>
Load(r) == /\ r.ev = "load"
           /\ st' = IF "dead" \in DOMAIN st[r.key] THEN st ELSE [st EXCEPT ![r.key] = Restore(r.fb, @, r.o)]
           /\ UNCHANGED <<bad, cov>>
(* the memory of instance r.from copied over that of r.key (of the same type): *)
(* all there is to an instance is in its memory, so the copy continues as it   *)
Copy(r) == r.ev = "copy" /\ st' = [st EXCEPT ![r.key] = st[r.from]] /\ UNCHANGED <<bad, cov>>
Skip(r) == r.ev = "call" /\ "dead" \in DOMAIN st[r.key] /\ UNCHANGED <<bad, cov, st>>
Call(r) ==
  /\ r.ev = "call" /\ "dead" \notin DOMAIN st[r.key]
  /\ LET s == st[r.key]
         j == Judged(s, r)
     IN /\ IF j.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", r.id, j.v>>)
        /\ bad' = IF j.v = "ok" THEN bad ELSE bad + 1
        /\ st' = [st EXCEPT ![r.key] = IF j.v = "ok" THEN j.e ELSE Dead]
        /\ cov' = Bump(cov, ClassOf(s, r))
Next == /\ l < Len(Recs)
        /\ l' = l + 1
        /\ LET r == Recs[l + 1] IN New(r) \/ Load(r) \/ Copy(r) \/ Skip(r) \/ Call(r)
        /\ IF l' = Len(Recs) THEN PrintT(<<"COV", ToJson(cov')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
