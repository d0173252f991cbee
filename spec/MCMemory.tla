------------------------------ MODULE MCMemory ------------------------------
(* What a call may touch. Memory is a row of cells; a text argument lies in   *)
(* the cells from Start up to and including its terminator, and nothing else  *)
(* belongs to the call. Two memories that agree on these cells (and nowhere   *)
(* else, perhaps) are read by the same function, cell by cell. A function     *)
(* that stops at the terminator touches its argument only (Inside) and tells  *)
(* the same of both memories (Blind). One that reads in blocks of Stride      *)
(* cells, or looks at one cell more (Beyond), does not.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cells,        \* number of cells
          Chars,        \* what a cell holds; 0 is the terminator
          Stride,       \* cells read at once
          Beyond        \* reads the cell behind the terminator as well

Memories == [1..Cells -> Chars]
Ends(m) == {i \in 1..Cells : m[i] = 0}
End(m, s) == CHOOSE e \in Ends(m) : e >= s /\ \A x \in Ends(m) : x >= s => e <= x
Footprint(m, s) == s..End(m, s)

VARIABLES one, two, start, pos, len, looked, done
vars == <<one, two, start, pos, len, looked, done>>
Init ==
  /\ one \in Memories /\ two \in Memories /\ start \in 1..Cells
  /\ \E e \in Ends(one) : e >= start
  /\ \A i \in Footprint(one, start) : two[i] = one[i]
  /\ pos = <<start, start>> /\ len = <<-1, -1>> /\ looked = {} /\ done = FALSE

Mem(k) == IF k = 1 THEN one ELSE two
(* cells beyond the row cannot be read: they only enter looked                *)
Block(p) == p..(p + Stride - 1)
First(k, p) == {i \in Block(p) \cap (1..Cells) : Mem(k)[i] = 0}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Step(k) ==
  /\ len[k] = -1
  /\ LET p == pos[k]
         z == First(k, p)
         tail == IF Beyond /\ z # {} THEN {Min(z) + 1} ELSE {}
     IN /\ looked' = looked \cup Block(p) \cup tail
        /\ IF z # {}
           THEN len' = [len EXCEPT ![k] = Min(z) - start + (IF tail \subseteq 1..Cells /\ (\E i \in tail : Mem(k)[i] # 0) THEN 1 ELSE 0)] /\ pos' = pos
           ELSE IF p + Stride > Cells THEN len' = [len EXCEPT ![k] = -2] /\ pos' = pos
           ELSE pos' = [pos EXCEPT ![k] = p + Stride] /\ len' = len
  /\ UNCHANGED <<one, two, start, done>>
Next == Step(1) \/ Step(2)
Spec == Init /\ [][Next]_vars
Inside == looked \subseteq Footprint(one, start)
Blind == len[1] # -1 /\ len[2] # -1 => len[1] = len[2]
Touch == Inside /\ Blind
=============================================================================
