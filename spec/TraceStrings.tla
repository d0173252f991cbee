---------------------------- MODULE TraceStrings ----------------------------
(* Recorded calls of the string operations. A source is recorded as the      *)
(* memory it occupies (code units up to and beyond its terminator); the      *)
(* destination as its bytes before (d0) and after (bufs[1]) the call.        *)
(* Which requirement is judged is chosen by Focus: "text" the value up to    *)
(* the terminator, "frame" everything else the call may and may not touch.   *)
EXTENDS Unicode, Strings, TLC, Json, IOUtils
CONSTANT Focus

Units(u) == SubSeq(u, 1, SelectInSeq(u, LAMBDA x : x = 0) - 1)      \* every recorded source has a terminator
Bytes(enc, u) == IF enc = "S" THEN u
                 ELSE TLCEval([i \in 1..(2 * Len(u)) |-> IF i % 2 = 1 THEN u[(i + 1) \div 2] % 256 ELSE u[i \div 2] \div 256])

Srcs(r) == TLCEval([i \in DOMAIN r.a |-> TLCEval(Units(r.a[i]))])
Decs(r) == LET us == Srcs(r) IN TLCEval([i \in DOMAIN us |-> TLCEval(Decode(r.enc, us[i]))])

(* [ok, cs] for the operations with a text result; kind "ill" when an        *)
(* argument is not well formed                                               *)
Text(r, d) ==
  LET s(i) == d[i].cs IN
  CASE r.op = "LEFT" -> Left(s(1), r.n[1])
    [] r.op = "RIGHT" -> Right(s(1), r.n[1])
    [] r.op = "MID" -> Mid(s(1), r.n[1], r.n[2])
    [] r.op = "INSERT" -> Insert(s(1), s(2), r.n[1])
    [] r.op = "DELETE" -> Delete(s(1), r.n[1], r.n[2])
    [] r.op = "REPLACE" -> Replace(s(1), s(2), r.n[1], r.n[2])
    [] r.op = "CONCAT" -> IF r.nul THEN Refused ELSE Concat([i \in DOMAIN d |-> d[i].cs])
    [] r.op = "CONV" -> Result(s(1))
OutEnc(r) == IF r.op = "CONV" THEN (IF r.enc = "S" THEN "W" ELSE "S") ELSE r.enc

StartsWith(b, p) == Len(p) <= Len(b) /\ SubSeq(b, 1, Len(p)) = p
Ending(r, u) == Bytes(OutEnc(r), u \o <<0>>)
Frame(r, u) ==
  IF r.s # 1 THEN "a source string was changed"
  ELSE IF r.g # 1 THEN "memory outside the result was changed"
  ELSE LET b == Ending(r, u) IN
       IF ~StartsWith(r.bufs[1], b) THEN "the result is not the text and one terminator"
       ELSE IF SubSeq(r.bufs[1], Len(b) + 1, Len(r.d0)) # SubSeq(r.d0, Len(b) + 1, Len(r.d0))
            THEN "the result was changed behind its terminator" ELSE "ok"

JudgeText(r) ==
  LET d == Decs(r)
      wide == r.op = "CONV" /\ r.enc = "W"      \* lossy, never ill-formed
      well == wide \/ \A i \in DOMAIN d : d[i].ok
      e == IF wide THEN Result(Lossy16(Srcs(r)[1])) ELSE IF well THEN Text(r, d) ELSE Refused
      u == Encode(OutEnc(r), e.cs)
  IN IF ~well
     THEN IF r.op = "CONV" /\ Focus = "text" THEN (IF r.out = "panic" THEN "ok" ELSE "ill-formed text was not refused")
          ELSE IF Focus = "frame" /\ r.s # 1 THEN "a source string was changed"
          ELSE IF Focus = "frame" /\ r.out = "panic" /\ r.g # 1 THEN "memory outside the result was changed"
          ELSE "ok"
     ELSE IF e.ok
     THEN IF r.out # "ok" THEN "the call was refused or failed (" \o r.out \o ") but is allowed"
          ELSE IF Focus = "frame" THEN Frame(r, u)
          ELSE IF ~StartsWith(r.bufs[1], Ending(r, u)) THEN "the result is not " \o ToString(u) ELSE "ok"
     ELSE IF r.out # "panic" THEN "the call must be refused but did not (" \o r.out \o ")"
          ELSE IF Focus = "frame" THEN (IF r.s # 1 THEN "a source string was changed"
                                        ELSE IF r.g # 1 \/ (Len(r.bufs) > 0 /\ r.bufs[1] # r.d0) THEN "the refused call changed the destination" ELSE "ok")
          ELSE "ok"

Compared(r) ==
  LET us == Srcs(r) IN
  IF Len(us) < 2 THEN (IF r.out = "panic" THEN "ok" ELSE "fewer than two arguments must be refused")
  ELSE IF r.out # "ok" THEN "the comparison failed: " \o r.out
  ELSE IF (r.r # 0 /\ r.r # 1) \/ ((r.r = 1) # Chain(r.op, us)) THEN "the answer " \o ToString(r.r) \o " is wrong"
  ELSE IF r.s # 1 \/ r.g # 1 THEN "an argument was changed" ELSE "ok"

SmallInt(b) == IF b.s = 0 THEN 0 ELSE IF Len(b.m) > 2 THEN -1 ELSE b.s * (b.m[1] + (IF Len(b.m) = 2 THEN 10000 * b.m[2] ELSE 0))
Measured(r) ==
  LET d == Decs(r) IN
  IF \E i \in DOMAIN d : ~d[i].ok THEN "ok"
  ELSE LET e == IF r.op = "LEN" THEN Len(d[1].cs) ELSE Find(d[1].cs, d[2].cs) IN
       IF r.out # "ok" THEN "the call failed: " \o r.out
       ELSE IF SmallInt(r.r) # e THEN "expected " \o ToString(e)
       ELSE IF r.s # 1 \/ r.g # 1 THEN "an argument was changed" ELSE "ok"

(* CHAR to WCHAR keeps the code; WCHAR to CHAR is specified for 7-bit codes  *)
Chars(r) ==
  IF r.out # "ok" THEN "the call failed: " \o r.out
  ELSE IF r.op = "C2W" THEN (IF SmallInt(r.r) = r.n[1] THEN "ok" ELSE "the code changed")
  ELSE IF r.n[1] < 128 /\ SmallInt(r.r) # r.n[1] THEN "the code changed" ELSE "ok"

(* number and time texts: their content is specified by other modules; here  *)
(* only that one terminated text was written and nothing behind it           *)
HasZero(b) == \E i \in DOMAIN b : b[i] = 0
Formatted(r) ==
  IF r.out # "ok" THEN (IF r.out = "panic" THEN "ok" ELSE "the call failed: " \o r.out)
  ELSE IF r.g # 1 THEN "memory outside the result was changed"
  ELSE IF ~HasZero(r.bufs[1]) THEN "the result is not terminated"
  ELSE LET u == Units(r.bufs[1]) IN
       IF u = <<>> THEN "no text was written"
       ELSE IF \E i \in DOMAIN u : u[i] > 127 THEN "the result contains old data"
       ELSE IF SubSeq(r.bufs[1], Len(u) + 2, Len(r.d0)) # SubSeq(r.d0, Len(u) + 2, Len(r.d0))
            THEN "the result was changed behind its terminator" ELSE "ok"

StringVerdict(r) ==
  IF r.out = "nosym" THEN "not exported"
  ELSE IF r.op \in {"EQ", "NE", "GT", "GE", "LT", "LE"} THEN Compared(r)
  ELSE IF r.op \in {"LEN", "FIND"} THEN Measured(r)
  ELSE IF r.op \in {"C2W", "W2C"} THEN Chars(r)
  ELSE IF r.op = "FORMAT" THEN Formatted(r)
  ELSE JudgeText(r)

Widths(r) == IF r.a = <<>> THEN "none"
             ELSE LET d == Decs(r) IN
                  IF \E i \in DOMAIN d : ~d[i].ok THEN "ill"
                  ELSE IF \A i \in DOMAIN d : \A c \in DOMAIN d[i].cs : d[i].cs[c] < 128 THEN "ascii" ELSE "multi"
StringClass(r) == r.op \o "." \o r.enc \o "." \o Widths(r) \o "." \o r.out

VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- StringVerdict, Class <- StringClass
=============================================================================
