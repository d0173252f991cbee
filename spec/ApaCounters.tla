---------------------------- MODULE ApaCounters ----------------------------
(* The counters over an unbounded range Lo..Hi around zero: an inductive     *)
(* invariant ties the state machine to an observer that keeps only the count *)
(* inputs of the last call that counted. Proved with Apalache: Init => Inv   *)
(* and Inv /\ Next => Inv', hence for histories of every length, every count *)
(* type and every preset.                                                    *)
EXTENDS Integers
CONSTANTS
  \* @type: Str;
  Kind,
  \* @type: Int;
  Lo,
  \* @type: Int;
  Hi

CZero == 0
CInc(a) == a + 1
CDec(a) == a - 1
CLeq(a, b) == a <= b
INSTANCE Counters WITH CZero <- CZero, CInc <- CInc, CDec <- CDec, CLeq <- CLeq

VARIABLES
  \* the counter (CTU and CTD use qu or qd, mu or md of it)
  \* @type: { qu: Bool, qd: Bool, cv: Int, mu: Bool, md: Bool };
  s,
  \* the count before the last call
  \* @type: Int;
  before,
  \* the last call
  \* @type: { u: Bool, d: Bool, r: Bool, l: Bool, pv: Int };
  c,
  \* the count inputs at the last counting call before the last call, and at the last counting call
  \* @type: { u: Bool, d: Bool };
  prev,
  \* @type: { u: Bool, d: Bool };
  last,
  \* @type: Bool;
  called

Range == Lo <= 0 /\ 0 <= Hi
ConstCTU == Kind = "CTU" /\ Lo \in Int /\ Hi \in Int /\ Range
ConstCTD == Kind = "CTD" /\ Lo \in Int /\ Hi \in Int /\ Range
ConstCTUD == Kind = "CTUD" /\ Lo \in Int /\ Hi \in Int /\ Range

V(x) == Lo <= x /\ x <= Hi
(* counting starts from any restored count                                   *)
Init == /\ \E cv \in Int : V(cv) /\ s = [CUDFresh EXCEPT !.cv = cv]
        /\ before = s.cv
        /\ c = [u |-> FALSE, d |-> FALSE, r |-> FALSE, l |-> FALSE, pv |-> 0]
        /\ prev = [u |-> FALSE, d |-> FALSE] /\ last = prev /\ called = FALSE

\* @type: ({ u: Bool, d: Bool, r: Bool, l: Bool, pv: Int }) => { qu: Bool, qd: Bool, cv: Int, mu: Bool, md: Bool };
Do(x) ==
  CASE Kind = "CTU" -> LET n == CTU([q |-> s.qu, cv |-> s.cv, mem |-> s.mu], x.u, x.r, x.pv, Lo, Hi)
                       IN [s EXCEPT !.qu = n.q, !.cv = n.cv, !.mu = n.mem]
    [] Kind = "CTD" -> LET n == CTD([q |-> s.qd, cv |-> s.cv, mem |-> s.md], x.d, x.l, x.pv, Lo, Hi)
                       IN [s EXCEPT !.qd = n.q, !.cv = n.cv, !.md = n.mem]
    [] OTHER -> CTUD(s, x.u, x.d, x.r, x.l, x.pv, Lo, Hi)
Next == \E u \in BOOLEAN, d \in BOOLEAN, r \in BOOLEAN, l \in BOOLEAN, pv \in Int :
  /\ V(pv)
  /\ (Kind = "CTU" => ~d /\ ~l) /\ (Kind = "CTD" => ~u /\ ~r)
  /\ c' = [u |-> u, d |-> d, r |-> r, l |-> l, pv |-> pv]
  /\ s' = Do(c') /\ before' = s.cv
  /\ prev' = last /\ last' = IF r \/ l THEN last ELSE [u |-> u, d |-> d]
  /\ called' = TRUE

Up == c.u /\ ~prev.u
Down == c.d /\ ~prev.d
(* what a call does to the count and what it shows, from the observer alone  *)
Definition ==
  called =>
  /\ s.cv = (IF c.r THEN 0 ELSE IF c.l THEN c.pv
             ELSE IF Up = Down THEN before
             ELSE IF Up THEN (IF before = Hi THEN Hi ELSE before + 1)
             ELSE (IF before = Lo THEN Lo ELSE before - 1))
  /\ (Kind # "CTD" => s.qu = (s.cv >= c.pv))
  /\ (Kind # "CTU" => s.qd = (s.cv <= 0))
Inv ==
  /\ V(s.cv) /\ V(before)
  /\ s.mu = last.u /\ s.md = last.d
  /\ (Kind = "CTU" => ~s.md /\ ~last.d) /\ (Kind = "CTD" => ~s.mu /\ ~last.u)
  /\ Definition
IndInit ==
  /\ s \in [qu : BOOLEAN, qd : BOOLEAN, cv : Int, mu : BOOLEAN, md : BOOLEAN]
  /\ before \in Int
  /\ c \in [u : BOOLEAN, d : BOOLEAN, r : BOOLEAN, l : BOOLEAN, pv : Int]
  /\ prev \in [u : BOOLEAN, d : BOOLEAN] /\ last \in [u : BOOLEAN, d : BOOLEAN]
  /\ called \in BOOLEAN
  /\ Inv
=============================================================================
