------------------------------- MODULE Outcome ------------------------------
(* When two calls have the same outcome: answered or refused alike, with the  *)
(* same number; numbers that are not numbers (NaN) count as one value.        *)
EXTENDS Integers, Sequences

(* bytes, least significant first                                             *)
NaN(b) ==
  CASE Len(b) = 4 -> LET e == (b[4] % 128) * 2 + b[3] \div 128
                     IN e = 255 /\ (b[3] % 128 # 0 \/ b[2] # 0 \/ b[1] # 0)
    [] Len(b) = 8 -> LET e == (b[8] % 128) * 16 + b[7] \div 16
                     IN e = 2047 /\ (b[7] % 16 # 0 \/ \E i \in 1..6 : b[i] # 0)
    [] OTHER -> FALSE
SameNumber(a, b) == a = b \/ (NaN(a) /\ NaN(b))
SameAnswer(a, b) ==
  /\ a.out = b.out
  /\ a.frame = b.frame
  /\ a.int = b.int
  /\ SameNumber(a.real, b.real)
=============================================================================
