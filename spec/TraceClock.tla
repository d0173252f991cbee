----------------------------- MODULE TraceClock -----------------------------
(* Timers on the production clock. A recorded call carries clock readings    *)
(* taken just before (a) and just after (b) it, so what the call itself read *)
(* is only known to lie in between, possibly at several instants. The        *)
(* specification is the ideal timer of Timers.tla over an uncertain clock:   *)
(* st maps an instance to the set of states it can be in, each with the      *)
(* bounds [sa, sb] of the instant its interval began. A call is rejected     *)
(* when no state in the set explains its outputs for any readings in [a, b]; *)
(* an observed ET narrows the bounds, which makes ET monotone.               *)
EXTENDS BigInt, TLC, Json, IOUtils, FiniteSets
INSTANCE Timers WITH TZero <- Zero, TSub <- Sub, TLeq <- Leq

Recs == TLCGet(1)
Names == [TON |-> "TON", TON_TIME |-> "TON", TON_LTIME |-> "TON",
          TOF |-> "TOF", TOF_TIME |-> "TOF", TOF_LTIME |-> "TOF",
          TP |-> "TP", TP_TIME |-> "TP", TP_LTIME |-> "TP"]

Begins == {"TONStart", "TOFStart", "TPStart", "TPRestart"}
Measures == {"TONWait", "TONOn", "TOFDelay", "TOFExpired", "TPPulseHigh", "TPPulseLow", "TPDone"}

Bounded == [s |-> Fresh, sa |-> Zero, sb |-> Zero]

(* the possible next states of one possible state u, given the outputs       *)
Explain(kind, u, r) ==
  LET pt == r.i.PT
      lo == IF u.s.run THEN BMax(Zero, Sub(r.a, u.sb)) ELSE Zero
      hi == IF u.s.run THEN BMax(Zero, Sub(r.b, u.sa)) ELSE Zero
      rel == [u.s EXCEPT !.start = Zero]
      (* elapsed times that can decide differently *)
      reads == {lo, hi} \cup (IF Within(pt, lo, hi) THEN {pt} ELSE {})
                        \cup (IF Within(Add(pt, One), lo, hi) THEN {Add(pt, One)} ELSE {})
      one(e) ==
        LET br == Branch(kind, rel, r.i.IN, pt, e)
            n == Step(kind, rel, r.i.IN, pt, e)
        IN IF r.o.Q # n.q THEN {}
           ELSE IF br \in Begins
                THEN IF r.o.ET # Zero THEN {} ELSE {[s |-> n, sa |-> r.a, sb |-> r.b]}
           ELSE IF br \in Measures
                THEN LET et == r.o.ET IN
                     IF ~Within(et, TMin(pt, lo), TMin(pt, hi)) THEN {}
                     ELSE IF Lt(et, pt)    \* the reading itself
                          THEN LET sa == BMax(u.sa, Sub(r.a, et))
                                   sb == BMin(u.sb, Sub(r.b, et))
                               IN IF Leq(sa, sb) THEN {[s |-> [n EXCEPT !.et = et], sa |-> sa, sb |-> sb]} ELSE {}
                          ELSE {[s |-> [n EXCEPT !.et = et], sa |-> u.sa, sb |-> u.sb]}
           ELSE IF r.o.ET # n.et THEN {} ELSE {[s |-> n, sa |-> u.sa, sb |-> u.sb]}
  IN UNION {one(e) : e \in reads}

Why(r) == IF r.out # "ok" THEN "the call did not return: " \o r.out
          ELSE IF ~r.iso THEN "the call changed memory outside its instance"
          ELSE IF r.i2 # r.i THEN "the call changed an input of its instance"
          ELSE "no reading of the clock during the call explains its outputs"

VARIABLES l, bad, cov, st
vars == <<l, bad, cov, st>>
Bump(c, x) == IF x \in DOMAIN c THEN [c EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ c

Init == TLCSet(1, ndJsonDeserialize(IOEnv.TRACE)) /\ l = 0 /\ bad = 0 /\ cov = <<>> /\ st = <<>>
New(r) == r.ev = "new" /\ st' = (r.key :> {Bounded}) @@ st /\ UNCHANGED <<bad, cov>>
Copy(r) == r.ev = "copy" /\ st' = [st EXCEPT ![r.key] = st[r.from]] /\ UNCHANGED <<bad, cov>>
Skip(r) == r.ev = "call" /\ st[r.key] = {} /\ UNCHANGED <<bad, cov, st>>
Call(r) ==
  /\ r.ev = "call" /\ st[r.key] # {}
  /\ LET kind == Names[r.fb]
         us == IF r.out = "ok" /\ r.iso /\ r.i2 = r.i
               THEN UNION {Explain(kind, u, r) : u \in st[r.key]} ELSE {}
         u0 == CHOOSE u \in st[r.key] : TRUE
     IN /\ IF us = {} THEN PrintT(<<"REJECT", r.id, Why(r)>>) ELSE TRUE
        /\ bad' = IF us = {} THEN bad + 1 ELSE bad
        /\ st' = [st EXCEPT ![r.key] = us]
        /\ cov' = Bump(cov, Branch(kind, [u0.s EXCEPT !.start = u0.sa], r.i.IN, r.i.PT, r.a))
Next == /\ l < Len(Recs)
        /\ l' = l + 1
        /\ LET r == Recs[l + 1] IN New(r) \/ Copy(r) \/ Skip(r) \/ Call(r)
        /\ IF l' = Len(Recs) THEN PrintT(<<"COV", ToJson(cov')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
