------------------------------- MODULE MCPure -------------------------------
(* A library of functions, called in any order, in any of its builds. An      *)
(* observer remembers for every function and arguments the outcome it saw     *)
(* first (memo). As long as a call depends on its arguments only, every later *)
(* outcome is the remembered one (Pure). A library that remembers something   *)
(* between calls (Remembers) and one whose builds differ where a calculation  *)
(* leaves the range of its type (Wraps) are both told apart by the observer.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Args, Builds, MaxCalls, Remembers, Wraps
Top == CHOOSE m \in Args : \A x \in Args : x <= m

VARIABLES memo, last, n, ok
vars == <<memo, last, n, ok>>
Init == memo = <<>> /\ last = 0 /\ n = 0 /\ ok = TRUE
(* one function: the sum of its two arguments, refused beyond the range       *)
Outcome(b, x, y) ==
  LET s == x + y + (IF Remembers /\ last = Top THEN 1 ELSE 0)
  IN IF s <= Top THEN s ELSE IF Wraps /\ b = "optimised" THEN s - Top - 1 ELSE -1
Call(b, x, y) ==
  LET o == Outcome(b, x, y)  k == <<x, y>>
  IN /\ n < MaxCalls /\ n' = n + 1 /\ last' = x
     /\ ok' = (ok /\ (k \in DOMAIN memo => memo[k] = o))
     /\ memo' = [q \in DOMAIN memo \cup {k} |-> IF q \in DOMAIN memo THEN memo[q] ELSE o]
Next == \E b \in Builds, x, y \in Args : Call(b, x, y)
Spec == Init /\ [][Next]_vars
Pure == ok
=============================================================================
