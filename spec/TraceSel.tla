----------------------------- MODULE TraceSel ------------------------------
(* Recorded calls of MAX, MIN and LIMIT: r.ty the type, r.a the arguments as *)
(* memory (LIMIT: minimum, value, maximum), r.n the argument count passed,   *)
(* r.null whether the list pointer was null; r.b the result as memory.       *)
EXTENDS Selection, Json, IOUtils

Item(r, i) == LET w == Elem[r.ty].w IN Value(r.ty, SubSeq(r.a, w * (i - 1) + 1, w * i))
ResultOf(r) == IF Elem[r.ty].k \in {"R", "L"} THEN [f |-> Elem[r.ty].k, v |-> Dec(Elem[r.ty].k, r.r)] ELSE [f |-> "", v |-> r.r]

Pick(r) ==
  IF r.null = 1 \/ r.n = 0
  THEN IF r.out = "panic" THEN "ok" ELSE "an empty or missing list was not refused (" \o r.out \o ")"
  ELSE IF r.out # "ok" THEN "the call failed: " \o r.out
  ELSE LET xs == [i \in 1..r.n |-> Item(r, i)]
           x == ResultOf(r)
           ys == TLCEval(xs)
       IN IF NoNumber(x) THEN (IF \E i \in DOMAIN ys : NoNumber(ys[i]) THEN "ok" ELSE "not a number")
          ELSE IF ~(\E i \in DOMAIN ys : ys[i] = x) THEN "the result is none of the arguments"
          ELSE IF ~(IF r.op = "MAX" THEN IsMax(x, ys) ELSE IsMin(x, ys)) THEN "an argument is beyond the result"
          ELSE IF r.s # 1 \/ r.g # 1 THEN "memory was changed" ELSE "ok"
Lim(r) ==
  IF r.out # "ok" THEN "the call failed: " \o r.out
  ELSE LET e == Clamp(Item(r, 1), Item(r, 2), Item(r, 3))
           x == ResultOf(r)
       IN IF NoNumber(e) THEN (IF NoNumber(x) THEN "ok" ELSE "wrong value") ELSE IF x = e THEN "ok" ELSE "wrong value"
SelVerdict(r) == IF r.out = "nosym" THEN "not exported" ELSE IF r.op = "LIMIT" THEN Lim(r) ELSE Pick(r)
Case(r) == IF r.op = "LIMIT"
           THEN LET lo == Item(r, 1)
                    x == Item(r, 2)
                    hi == Item(r, 3)
                IN IF Less(x, lo) THEN "below" ELSE IF Less(hi, x) THEN "above" ELSE "inside"
           ELSE IF r.null = 1 THEN "null" ELSE IF r.n = 0 THEN "empty" ELSE IF r.n = 1 THEN "one" ELSE "many"
SelClass(r) == r.op \o "." \o r.ty \o "." \o Case(r) \o "." \o r.out

VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- SelVerdict, Class <- SelClass
=============================================================================
