----------------------------- MODULE TraceMemory ----------------------------
(* What calls touch (MCMemory's Inside and Blind for the real functions). A   *)
(* record is one call, made with its arguments among other memory, twice,     *)
(* with results first holding one content and then its complement (seen 1, 2) *)
(* and with each argument reduced to its footprint between inaccessible       *)
(* memory (the others): a text up to and including its terminator, a list of  *)
(* its elements, a result of exactly the cells written. No such call may      *)
(* fail, and none may tell anything else.                                     *)
EXTENDS Outcome, FiniteSets, TLC, Json, IOUtils

Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* ---- the footprint of an argument: a.cells bytes as given, in units        *)
ZeroUnits(a) == {k \in 0..((Len(a.cells) \div a.unit) - 1) : \A i \in 1..a.unit : a.cells[k * a.unit + i] = 0}
FootprintLen(a) ==
  CASE a.kind = "text" -> (Min(ZeroUnits(a)) + 1) * a.unit
    [] a.kind = "list" -> a.count * a.unit
    [] OTHER -> Len(a.cells)
IsFootprint(a) == Len(a.walled) = FootprintLen(a) /\ a.walled = SubSeq(a.cells, 1, FootprintLen(a))

(* ---- results: what was written, whatever the result held before            *)
Written(r, k) ==
  LET one == r.seen[1]  two == r.seen[2]
  IN {i \in DOMAIN one.bufs[k] : one.bufs[k][i] # one.held[k][i] \/ two.bufs[k][i] # two.held[k][i]}
Complement(r, k) == \A i \in DOMAIN r.seen[1].held[k] : r.seen[1].held[k][i] + r.seen[2].held[k][i] = 255
SameWritten(r) ==
  \A k \in DOMAIN r.seen[1].bufs : \A i \in Written(r, k) : r.seen[1].bufs[k][i] = r.seen[2].bufs[k][i]
ResultExact(r, s) == \A k \in DOMAIN s.held : Len(s.held[k]) = Max(Written(r, k))
ResultSame(r, s) ==
  /\ Len(s.bufs) = Len(r.seen[1].bufs)
  /\ \A k \in DOMAIN s.bufs : s.bufs[k] = SubSeq(r.seen[1].bufs[k], 1, Max(Written(r, k)))

Walled(r) == 3..Len(r.seen)
MemoryVerdict(r) ==
  IF \E i \in DOMAIN r.args : ~IsFootprint(r.args[i]) THEN "the driver did not reduce an argument to its footprint"
  ELSE IF \E i \in DOMAIN r.seen : r.seen[i].out \in {"crash", "hang"}
       THEN "memory outside the arguments is touched: " \o ToString([i \in DOMAIN r.seen |-> <<r.seen[i].place, r.seen[i].out>>])
  ELSE IF \E i \in DOMAIN r.seen : ~SameAnswer(r.seen[1], r.seen[i])
       THEN "what lies around the arguments changes the outcome: " \o ToString([i \in DOMAIN r.seen |-> <<r.seen[i].place, r.seen[i].out, r.seen[i].frame, r.seen[i].int, r.seen[i].real>>])
  ELSE IF \E k \in DOMAIN r.seen[1].held : ~Complement(r, k) THEN "the driver did not complement a result"
  ELSE IF ~SameWritten(r) THEN "what a result held before changes the outcome"
  ELSE IF \E i \in Walled(r) : ~ResultExact(r, r.seen[i]) THEN "the driver did not reduce a result to what is written"
  ELSE IF \E i \in Walled(r) : ~ResultSame(r, r.seen[i]) THEN "what lies around the arguments changes the result"
  ELSE "ok"
MemoryClass(r) == IF r.seen[1].out = "ok" THEN "answered" ELSE "refused"
VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- MemoryVerdict, Class <- MemoryClass
=============================================================================
