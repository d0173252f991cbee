------------------------------ MODULE Unicode ------------------------------
(* Characters, and their encodings in STRING (UTF-8 bytes) and WSTRING       *)
(* (UTF-16 words). A character is its scalar value.                          *)
EXTENDS Integers, Sequences, SequencesExt, TLC

IsScalar(c) == (c >= 0 /\ c <= 55295) \/ (c >= 57344 /\ c <= 1114111)
REPLACEMENT == 65533

(* --- UTF-8 ---------------------------------------------------------------- *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
IsCont(b) == b >= 128 /\ b < 192
(* length a leading byte announces; 0 if it cannot lead                      *)
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b >= 194 /\ b < 224 THEN 2
              ELSE IF b >= 224 /\ b < 240 THEN 3 ELSE IF b >= 240 /\ b < 245 THEN 4 ELSE 0
(* the character whose encoding starts at u[i]: -1 if there is none          *)
Utf8At(u, i) ==
  LET n == LeadLen(u[i]) IN
  IF n = 0 \/ i + n - 1 > Len(u) THEN -1
  ELSE IF \E k \in 1..(n - 1) : ~IsCont(u[i + k]) THEN -1
  ELSE LET c == CASE n = 1 -> u[i]
                  [] n = 2 -> (u[i] - 192) * 64 + (u[i+1] - 128)
                  [] n = 3 -> (u[i] - 224) * 4096 + (u[i+1] - 128) * 64 + (u[i+2] - 128)
                  [] n = 4 -> (u[i] - 240) * 262144 + (u[i+1] - 128) * 4096 + (u[i+2] - 128) * 64 + (u[i+3] - 128)
       IN IF IsScalar(c) /\ Utf8(c) = SubSeq(u, i, i + n - 1) THEN c ELSE -1

(* --- UTF-16 --------------------------------------------------------------- *)
Utf16(c) == IF c < 65536 THEN <<c>>
            ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
IsHigh(w) == w >= 55296 /\ w < 56320
IsLow(w) == w >= 56320 /\ w < 57344
Utf16At(u, i) ==
  IF IsHigh(u[i]) /\ i < Len(u) /\ IsLow(u[i+1]) THEN 65536 + (u[i] - 55296) * 1024 + (u[i+1] - 56320)
  ELSE IF IsHigh(u[i]) \/ IsLow(u[i]) THEN -1 ELSE u[i]

(* --- both ----------------------------------------------------------------- *)
Enc1(enc, c) == IF enc = "S" THEN Utf8(c) ELSE Utf16(c)
(* concatenation of seqs[lo..hi], by halves                                  *)
RECURSIVE Joined(_, _, _)
Joined(seqs, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN seqs[lo]
                        ELSE LET m == (lo + hi) \div 2 IN Joined(seqs, lo, m) \o Joined(seqs, m + 1, hi)
Encode(enc, cs) == LET es == TLCEval([i \in DOMAIN cs |-> Enc1(enc, cs[i])]) IN Joined(es, 1, Len(es))
At(enc, u, i) == IF enc = "S" THEN Utf8At(u, i) ELSE Utf16At(u, i)

(* reading a text from the left: the definition of decoding                  *)
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(enc, u, i, acc) ==
  IF i > Len(u) THEN [ok |-> TRUE, cs |-> acc]
  ELSE LET c == At(enc, u, i) IN
       IF c = -1 THEN [ok |-> FALSE, cs |-> <<>>]
       ELSE DecodeFrom(enc, u, i + Len(Enc1(enc, c)), Append(acc, c))
(* Reading it everywhere at once, for long texts: the units a character can  *)
(* start at, each of which must be followed by the next one. MCUnicode shows *)
(* that both agree.                                                          *)
Continues(enc, u, i) == IF enc = "S" THEN IsCont(u[i]) ELSE i > 1 /\ IsLow(u[i]) /\ IsHigh(u[i-1])
Starts(enc, u) == LET ix == TLCEval([i \in DOMAIN u |-> i]) IN TLCEval(SelectSeq(ix, LAMBDA i : ~Continues(enc, u, i)))
Decode(enc, u) ==
  LET st == Starts(enc, u)
      n == Len(st)
      cs == TLCEval([k \in 1..n |-> At(enc, u, st[k])])
      ok == /\ u # <<>> => n > 0 /\ st[1] = 1
            /\ \A k \in 1..n : cs[k] # -1 /\ st[k] + Len(Enc1(enc, cs[k])) = (IF k = n THEN Len(u) + 1 ELSE st[k+1])
  IN IF ok THEN [ok |-> TRUE, cs |-> cs] ELSE [ok |-> FALSE, cs |-> <<>>]

(* UTF-16 with every unpaired surrogate replaced                             *)
RECURSIVE LossyFrom(_, _, _)
LossyFrom(u, i, acc) ==
  IF i > Len(u) THEN acc
  ELSE LET c == Utf16At(u, i) IN
       IF c = -1 THEN LossyFrom(u, i + 1, Append(acc, REPLACEMENT))
       ELSE LossyFrom(u, i + Len(Utf16(c)), Append(acc, c))
Lossy16(u) == LET st == Starts("W", u)
              IN TLCEval([k \in DOMAIN st |-> LET c == Utf16At(u, st[k]) IN IF c = -1 THEN REPLACEMENT ELSE c])
=============================================================================
