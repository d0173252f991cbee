---------------------------- MODULE MCInstances ----------------------------
(* Instances of one function-block type, called, created anew and copied     *)
(* over each other in any order. mem is all the memory an instance has; each *)
(* instance must behave as one that alone has seen the calls of its own      *)
(* history, where a copy takes over the history of its original.             *)
(* Elsewhere = TRUE is the flawed design that keeps the hidden state in a    *)
(* table by instance instead of in the instance: it must be told apart.      *)
EXTENDS FunctionBlocks
CONSTANTS FB, Instances, MaxCalls, Elsewhere

Inputs ==
  LET f == Family(FB) IN
  CASE f \in Kinds -> {("IN" :> b) @@ [PT |-> p] : b \in BOOLEAN, p \in {Zero, Big(2)}}
    [] f = "CTU" -> [CU : BOOLEAN, R : BOOLEAN, PV : {Big(1)}]
    [] f = "CTD" -> [CD : BOOLEAN, LD : BOOLEAN, PV : {Big(1)}]
    [] f = "CTUD" -> [CU : BOOLEAN, CD : BOOLEAN, R : BOOLEAN, LD : {FALSE}, PV : {Big(1)}]
    [] f \in {"R_TRIG", "F_TRIG"} -> [CLK : BOOLEAN]
    [] f = "SR" -> [SET1 : BOOLEAN, RESET : BOOLEAN]
    [] f = "RS" -> [SET : BOOLEAN, RESET1 : BOOLEAN]

VARIABLES mem, table, hist, now, n, log
vars == <<mem, table, hist, now, n, log>>
Timed == Family(FB) \in Kinds
Same == [i \in Instances |-> i]
Init == /\ mem = [i \in Instances |-> FreshOf(FB)] /\ table = mem
        /\ hist = [i \in Instances |-> <<>>] /\ now = Zero /\ n = 0 /\ log = <<>>
State(i) == IF Elsewhere THEN table[i] ELSE mem[i]
Write(i, s) == mem' = [mem EXCEPT ![i] = s] /\ table' = [table EXCEPT ![i] = s]
Call(i) == \E x \in Inputs, dt \in (IF Timed THEN {0, 1} ELSE {0}) :
  LET t == Add(now, Big(dt))
      r == [fb |-> FB, i |-> x, now |-> t]
  IN /\ now' = t /\ Write(i, StepOf(State(i), r))
     /\ hist' = [hist EXCEPT ![i] = Append(@, r)]
     /\ log' = Append(log, [ev |-> "call", key |-> i, i |-> x, dt |-> dt])
New(i) == /\ Write(i, FreshOf(FB)) /\ hist' = [hist EXCEPT ![i] = <<>>] /\ UNCHANGED now
          /\ log' = Append(log, [ev |-> "new", key |-> i])
Copy(i) == \E j \in Instances \ {i} :
  /\ mem' = [mem EXCEPT ![i] = mem[j]] /\ UNCHANGED <<table, now>>
  /\ hist' = [hist EXCEPT ![i] = hist[j]]
  /\ log' = Append(log, [ev |-> "copy", key |-> i, from |-> j])
Next == n < MaxCalls /\ n' = n + 1 /\ \E i \in Instances : Call(i) \/ New(i) \/ Copy(i)
Spec == Init /\ [][Next]_vars

RECURSIVE Replay(_, _)
Replay(h, k) == IF k = 0 THEN FreshOf(FB) ELSE StepOf(Replay(h, k - 1), h[k])
(* what the next call of the instance would start from is what its own history gives *)
OwnHistory == \A i \in Instances : State(i) = Replay(hist[i], Len(hist[i]))
=============================================================================
