------------------------------ MODULE Strings ------------------------------
(* The IEC 61131-3 character-string operations over sequences of characters. *)
(* Positions count characters from 1. An operation is a record               *)
(*   [ok |-> TRUE, cs |-> result]  or  [ok |-> FALSE]  when it is refused.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Refused == [ok |-> FALSE, cs |-> <<>>]
Result(cs) == [ok |-> TRUE, cs |-> cs]
Part(s, from, to) == IF from > to THEN <<>> ELSE SubSeq(s, from, to)

Left(s, n) == IF n < 0 \/ n > Len(s) THEN Refused ELSE Result(Part(s, 1, n))
Right(s, n) == IF n < 0 \/ n > Len(s) THEN Refused ELSE Result(Part(s, Len(s) - n + 1, Len(s)))
Mid(s, n, pos) == IF pos < 1 \/ pos > Len(s) \/ n < 0 \/ n > Len(s) - pos + 1 THEN Refused
                  ELSE Result(Part(s, pos, pos + n - 1))
Insert(s, t, pos) == IF pos < 0 \/ pos > Len(s) THEN Refused
                     ELSE Result(Part(s, 1, pos) \o t \o Part(s, pos + 1, Len(s)))
Replace(s, t, n, pos) == IF pos < 1 \/ pos > Len(s) \/ n < 0 \/ n > Len(s) - pos + 1 THEN Refused
                         ELSE Result(Part(s, 1, pos - 1) \o t \o Part(s, pos + n, Len(s)))
Delete(s, n, pos) == Replace(s, <<>>, n, pos)
Concat(ss) == Result(FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss))

Occurs(s, t, i) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
(* SelectInSeq: the first index with the property, 0 if there is none         *)
Find(s, t) == IF s = <<>> \/ t = <<>> THEN 0
              ELSE LET ix == TLCEval([i \in DOMAIN s |-> i]) IN SelectInSeq(ix, LAMBDA i : s[i] = t[1] /\ Occurs(s, t, i))

(* order: -1, 0, 1 on sequences of code units                                *)
Ord(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                 d == SelectInSeq(TLCEval([i \in 1..n |-> a[i] # b[i]]), LAMBDA x : x)
             IN IF d # 0 THEN (IF a[d] < b[d] THEN -1 ELSE 1)
                ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
Rel(op, o) == CASE op = "EQ" -> o = 0 [] op = "NE" -> o # 0 [] op = "GT" -> o > 0
                [] op = "GE" -> o >= 0 [] op = "LT" -> o < 0 [] op = "LE" -> o <= 0
Chain(op, us) == \A i \in 1..(Len(us) - 1) : Rel(op, Ord(us[i], us[i + 1]))
=============================================================================
