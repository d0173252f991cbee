----------------------------- MODULE MCStrings -----------------------------
(* Requirements the string operations must meet, checked for every pair of   *)
(* short strings over an alphabet with characters of every encoded length.   *)
(* The state space is the pairs themselves, built in two steps.              *)
EXTENDS Unicode, Strings, TLC, FiniteSets
CONSTANTS MaxLen

(* 1 to 4 bytes, one and two words; neighbours share leading units           *)
Alphabet == {97, 98, 233, 234, 8364, 65534, 65536, 128512}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Encs == {"S", "W"}

VARIABLES s, t, n
Init == s = <<>> /\ t = <<>> /\ n = 0
Next == \/ n = 0 /\ n' = 1 /\ s' \in Texts /\ UNCHANGED t
        \/ n = 1 /\ n' = 2 /\ t' \in {x \in Texts : Len(x) <= 2} /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, t, n>>

RoundTrip == \A e \in Encs : LET d == Decode(e, Encode(e, s)) IN d.ok /\ d.cs = s
(* an encoding is not a prefix of, and never found inside, another: searching *)
(* code units finds characters                                               *)
UnitsBefore(e, i) == Len(Encode(e, Part(s, 1, i - 1)))
SearchUnits == \A e \in Encs :
  LET c == Find(s, t)
      u == Find(Encode(e, s), Encode(e, t))
  IN u = IF c = 0 THEN 0 ELSE UnitsBefore(e, c) + 1
FindMeans == LET i == Find(s, t) IN
  IF i = 0 THEN s = <<>> \/ t = <<>> \/ \A j \in 1..Len(s) : ~Occurs(s, t, j)
  ELSE Occurs(s, t, i) /\ \A j \in 1..(i - 1) : ~Occurs(s, t, j)
Ns == -1..(MaxLen + 1)
Cuts == \A k \in Ns : LET l == Left(s, k) r == Right(s, k) IN
  /\ l.ok = r.ok /\ l.ok = (k \in 0..Len(s))
  /\ l.ok => /\ Len(l.cs) = k /\ Len(r.cs) = k
             /\ l.cs \o Right(s, Len(s) - k).cs = s
MidMeans == \A k \in Ns, p \in Ns : LET m == Mid(s, k, p) IN
  m.ok => /\ Len(m.cs) = k
          /\ Left(s, p - 1).cs \o m.cs \o Right(s, Len(s) - p + 1 - k).cs = s
EditMeans == \A p \in Ns :
  LET i == Insert(s, t, p) IN
  i.ok => /\ Len(i.cs) = Len(s) + Len(t)
          /\ t # <<>> => Delete(i.cs, Len(t), p + 1) = Result(s)
          /\ Mid(i.cs, Len(t), p + 1).ok => Mid(i.cs, Len(t), p + 1).cs = t
ReplaceMeans == \A k \in Ns, p \in Ns :
  LET r == Replace(s, t, k, p)
      d == Delete(s, k, p)
  IN /\ r.ok = d.ok /\ r.ok = Mid(s, k, p).ok
     /\ r.ok => r = Insert(d.cs, t, p - 1)
ConcatMeans == /\ Concat(<<>>) = Result(<<>>) /\ Concat(<<s>>) = Result(s)
               /\ Concat(<<s, t>>) = Insert(s, t, Len(s))
               /\ \A e \in Encs : Encode(e, Concat(<<s, t>>).cs) = Encode(e, s) \o Encode(e, t)
OrderMeans == /\ Ord(s, t) = -Ord(t, s) /\ (Ord(s, t) = 0) <=> (s = t)
              /\ Ord(s, s \o t) = (IF t = <<>> THEN 0 ELSE -1)
              (* UTF-8 keeps the order of characters *)
              /\ Ord(Encode("S", s), Encode("S", t)) = Ord(s, t)
              /\ Chain("LE", <<s, t>>) = ~Chain("GT", <<s, t>>)
              /\ Chain("LT", <<s, t>>) = (Chain("LE", <<s, t>>) /\ Rel("NE", Ord(s, t)))
              /\ \A x \in {<<97>>, <<233, 97>>, <<128512>>} :
                   (Ord(s, x) <= 0 /\ Ord(x, t) <= 0) => Ord(s, t) <= 0
LossyAgrees == Lossy16(Encode("W", s)) = s
=============================================================================
