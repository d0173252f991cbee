--------------------------- MODULE FunctionBlocks ---------------------------
(* All function-block types behind one interface: the state of a new         *)
(* instance, the state after a call r = [fb, i (inputs), now], the outputs a *)
(* program reads, over exact numbers of any size.                            *)
EXTENDS BigInt, TLC

INSTANCE Timers WITH TZero <- Zero, TSub <- Sub, TLeq <- Leq
INSTANCE Counters WITH CZero <- Zero, CInc <- LAMBDA x : Add(x, One), CDec <- LAMBDA x : Sub(x, One), CLeq <- Leq
INSTANCE Basics

(* --- function-block names ------------------------------------------------- *)
TimerNames == [TON |-> "TON", TON_TIME |-> "TON", TON_LTIME |-> "TON",
               TOF |-> "TOF", TOF_TIME |-> "TOF", TOF_LTIME |-> "TOF",
               TP |-> "TP", TP_TIME |-> "TP", TP_LTIME |-> "TP"]
CounterBase == [CTU |-> "CTU", CTU_INT |-> "CTU", CTU_DINT |-> "CTU", CTU_UDINT |-> "CTU", CTU_LINT |-> "CTU", CTU_ULINT |-> "CTU",
                CTD |-> "CTD", CTD_INT |-> "CTD", CTD_DINT |-> "CTD", CTD_UDINT |-> "CTD", CTD_LINT |-> "CTD", CTD_ULINT |-> "CTD",
                CTUD |-> "CTUD", CTUD_INT |-> "CTUD", CTUD_DINT |-> "CTUD", CTUD_UDINT |-> "CTUD", CTUD_LINT |-> "CTUD", CTUD_ULINT |-> "CTUD"]
INT16 == [lo |-> Neg(Pow2(15)), hi |-> Sub(Pow2(15), One)]
INT32 == [lo |-> Neg(Pow2(31)), hi |-> Sub(Pow2(31), One)]
INT64 == [lo |-> I64Min, hi |-> I64Max]
UINT32 == [lo |-> Zero, hi |-> Sub(P32, One)]
UINT64 == [lo |-> Zero, hi |-> U64Max]
TypeOf(fb) ==
  IF fb \in {"CTU", "CTU_INT", "CTD", "CTD_INT", "CTUD", "CTUD_INT"} THEN INT16
  ELSE IF fb \in {"CTU_DINT", "CTD_DINT", "CTUD_DINT"} THEN INT32
  ELSE IF fb \in {"CTU_UDINT", "CTD_UDINT", "CTUD_UDINT"} THEN UINT32
  ELSE IF fb \in {"CTU_LINT", "CTD_LINT", "CTUD_LINT"} THEN INT64
  ELSE UINT64
Family(fb) == IF fb \in DOMAIN TimerNames THEN TimerNames[fb]
              ELSE IF fb \in DOMAIN CounterBase THEN CounterBase[fb] ELSE fb

FreshOf(fb) ==
  LET f == Family(fb) IN
  IF f \in Kinds THEN Fresh
  ELSE IF f = "CTUD" THEN CUDFresh
  ELSE IF f \in {"CTU", "CTD"} THEN CFresh
  ELSE IF f \in {"R_TRIG", "F_TRIG"} THEN EdgeFresh
  ELSE LatchFresh

(* --- one call -------------------------------------------------------------- *)
StepOf(s, r) ==
  LET f == Family(r.fb)
      t == TypeOf(r.fb)
      i == r.i
  IN CASE f \in Kinds -> Step(f, s, i.IN, i.PT, r.now)
       [] f = "CTU" -> CTU(s, i.CU, i.R, i.PV, t.lo, t.hi)
       [] f = "CTD" -> CTD(s, i.CD, i.LD, i.PV, t.lo, t.hi)
       [] f = "CTUD" -> CTUD(s, i.CU, i.CD, i.R, i.LD, i.PV, t.lo, t.hi)
       [] f = "R_TRIG" -> RTrig(s, i.CLK)
       [] f = "F_TRIG" -> FTrig(s, i.CLK)
       [] f = "SR" -> SetDominant(s, i.SET1, i.RESET)
       [] f = "RS" -> ResetDominant(s, i.SET, i.RESET1)
ClassOf(s, r) ==
  LET f == Family(r.fb)
      t == TypeOf(r.fb)
      i == r.i
  IN CASE f \in Kinds -> Branch(f, s, i.IN, i.PT, r.now)
       [] f = "CTU" -> CTUClass(s, i.CU, i.R, t.hi)
       [] f = "CTD" -> CTDClass(s, i.CD, i.LD, t.lo)
       [] f = "CTUD" -> CTUDClass(s, i.CU, i.CD, i.R, i.LD, t.lo, t.hi)
       [] f = "R_TRIG" -> "R_TRIG." \o (IF s.mem THEN "T" ELSE "F") \o (IF i.CLK THEN "T" ELSE "F")
       [] f = "F_TRIG" -> "F_TRIG." \o (IF s.mem THEN "T" ELSE "F") \o (IF i.CLK THEN "T" ELSE "F")
       [] f = "SR" -> "SR." \o (IF s.q THEN "T" ELSE "F") \o (IF i.SET1 THEN "T" ELSE "F") \o (IF i.RESET THEN "T" ELSE "F")
       [] f = "RS" -> "RS." \o (IF s.q THEN "T" ELSE "F") \o (IF i.SET THEN "T" ELSE "F") \o (IF i.RESET1 THEN "T" ELSE "F")

(* the outputs the program reads after the call                              *)
Outputs(fb, s) ==
  LET f == Family(fb)
  IN CASE f \in Kinds -> [Q |-> s.q, ET |-> s.et]
       [] f \in {"CTU", "CTD"} -> [Q |-> s.q, CV |-> s.cv]
       [] f = "CTUD" -> [QU |-> s.qu, QD |-> s.qd, CV |-> s.cv]
       [] f \in {"R_TRIG", "F_TRIG"} -> [Q |-> s.q]
       [] f \in {"SR", "RS"} -> [Q1 |-> s.q]
(* the outputs of an instance restored with other values (retained memory)   *)
Restore(fb, s, o) ==
  LET f == Family(fb)
  IN CASE f \in {"CTU", "CTD"} -> [s EXCEPT !.cv = o.CV, !.q = o.Q]
       [] f = "CTUD" -> [s EXCEPT !.cv = o.CV, !.qu = o.QU, !.qd = o.QD]
       [] f \in {"SR", "RS"} -> [s EXCEPT !.q = o.Q1]
       [] OTHER -> s

=============================================================================
