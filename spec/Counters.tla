------------------------------ MODULE Counters ------------------------------
(* The IEC 61131-3 counters for a count type with values lo..hi.             *)
(* mem (mu, md) is the edge memory: the count input seen by the last call    *)
(* that was a counting call. Calls with R or LD true do not look at the      *)
(* count inputs at all (EdgeMemorySkipsReset below: an input that rises      *)
(* while R is true and stays true is counted by the first call without R).   *)
(* The number system is a parameter: small integers for MCCounters, exact    *)
(* 64-bit values for TraceFB.                                                *)
(* Types are annotated for Apalache (ApaCounters), with integers as numbers. *)
(*
  @typeAlias: ctr = { q: Bool, cv: Int, mem: Bool };
  @typeAlias: ctud = { qu: Bool, qd: Bool, cv: Int, mu: Bool, md: Bool };
*)
Counters_aliases == TRUE
CONSTANTS
  \* @type: Int;
  CZero,
  \* @type: (Int) => Int;
  CInc(_),
  \* @type: (Int) => Int;
  CDec(_),
  \* @type: (Int, Int) => Bool;
  CLeq(_, _)

\* @type: $ctr;
CFresh == [q |-> FALSE, cv |-> CZero, mem |-> FALSE]
\* @type: $ctud;
CUDFresh == [qu |-> FALSE, qd |-> FALSE, cv |-> CZero, mu |-> FALSE, md |-> FALSE]

\* @type: (Int, Int) => Int;
Bumped(cv, hi) == IF cv = hi THEN cv ELSE CInc(cv)
\* @type: (Int, Int) => Int;
Dropped(cv, lo) == IF cv = lo THEN cv ELSE CDec(cv)

\* @type: ($ctr, Bool, Bool, Int, Int, Int) => $ctr;
CTU(s, cu, r, pv, lo, hi) ==
  LET cv == IF r THEN CZero
            ELSE IF cu /\ ~s.mem THEN Bumped(s.cv, hi) ELSE s.cv
  IN [q |-> CLeq(pv, cv), cv |-> cv, mem |-> IF r THEN s.mem ELSE cu]

\* @type: ($ctr, Bool, Bool, Int, Int, Int) => $ctr;
CTD(s, cd, ld, pv, lo, hi) ==
  LET cv == IF ld THEN pv
            ELSE IF cd /\ ~s.mem THEN Dropped(s.cv, lo) ELSE s.cv
  IN [q |-> CLeq(cv, CZero), cv |-> cv, mem |-> IF ld THEN s.mem ELSE cd]

\* @type: ($ctud, Bool, Bool, Bool, Bool, Int, Int, Int) => $ctud;
CTUD(s, cu, cd, r, ld, pv, lo, hi) ==
  LET up == cu /\ ~s.mu
      dn == cd /\ ~s.md
      cv == IF r THEN CZero
            ELSE IF ld THEN pv
            ELSE IF up /\ ~dn THEN Bumped(s.cv, hi)
            ELSE IF dn /\ ~up THEN Dropped(s.cv, lo)
            ELSE s.cv
      counting == ~r /\ ~ld
  IN [qu |-> CLeq(pv, cv), qd |-> CLeq(cv, CZero), cv |-> cv,
      mu |-> IF counting THEN cu ELSE s.mu, md |-> IF counting THEN cd ELSE s.md]

(* which case a call is                                                      *)
\* @type: ($ctr, Bool, Bool, Int) => Str;
CTUClass(s, cu, r, hi) ==
  IF r THEN "CTU.reset" ELSE IF ~cu THEN "CTU.low" ELSE IF s.mem THEN "CTU.held"
  ELSE IF s.cv = hi THEN "CTU.saturated" ELSE "CTU.count"
\* @type: ($ctr, Bool, Bool, Int) => Str;
CTDClass(s, cd, ld, lo) ==
  IF ld THEN "CTD.load" ELSE IF ~cd THEN "CTD.low" ELSE IF s.mem THEN "CTD.held"
  ELSE IF s.cv = lo THEN "CTD.saturated" ELSE "CTD.count"
\* @type: ($ctud, Bool, Bool, Bool, Bool, Int, Int) => Str;
CTUDClass(s, cu, cd, r, ld, lo, hi) ==
  IF r THEN (IF ld THEN "CTUD.resetload" ELSE "CTUD.reset") ELSE IF ld THEN "CTUD.load"
  ELSE LET up == cu /\ ~s.mu
           dn == cd /\ ~s.md
       IN IF up /\ dn THEN (IF s.cv = hi THEN "CTUD.cancelhi" ELSE IF s.cv = lo THEN "CTUD.cancello" ELSE "CTUD.cancel")
          ELSE IF up THEN (IF s.cv = hi THEN "CTUD.saturatedhi" ELSE IF cd THEN "CTUD.upheld" ELSE "CTUD.up")
          ELSE IF dn THEN (IF s.cv = lo THEN "CTUD.saturatedlo" ELSE IF cu THEN "CTUD.downheld" ELSE "CTUD.down")
          ELSE "CTUD.none"
=============================================================================
