----------------------------- MODULE Signatures -----------------------------
(* How a declaration in structured text becomes a call of a native function:  *)
(* the calling convention of the compiler. An external unit is described by   *)
(* what its declaration says (u), the exported function by the machine types  *)
(* it takes and gives (f). They fit when every call written against the       *)
(* declaration passes exactly what the function reads.                        *)
EXTENDS Interface, Integers, Sequences, FiniteSets

(* ---- elementary types: machine type and signedness                         *)
Bits8  == {"BYTE", "CHAR"}
Bits16 == {"WORD", "WCHAR"}
Dates  == {"TIME", "LTIME", "DATE", "LDATE", "DT", "LDT", "TOD", "LTOD", "DATE_AND_TIME", "TIME_OF_DAY"}
Texts  == {"STRING", "WSTRING"}
Signed == {"SINT", "INT", "DINT", "LINT"} \cup Dates
Machine(ty) ==
  CASE ty \in {"BOOL", "SINT", "USINT"} \cup Bits8 -> "i8"
    [] ty \in {"INT", "UINT"} \cup Bits16 -> "i16"
    [] ty \in {"DINT", "UDINT", "DWORD"} -> "i32"
    [] ty \in {"LINT", "ULINT", "LWORD"} \cup Dates -> "i64"
    [] ty = "REAL" -> "float"
    [] ty = "LREAL" -> "double"
    [] OTHER -> "?"

(* ---- generic parameter types: the hierarchy of IEC 61131-3                 *)
AnySigned == {"SINT", "INT", "DINT", "LINT"}
AnyUnsigned == {"USINT", "UINT", "UDINT", "ULINT"}
AnyBit == {"BOOL", "BYTE", "WORD", "DWORD", "LWORD"}
Members(any) ==
  LET int == AnySigned \cup AnyUnsigned
      real == {"REAL", "LREAL"}
      num == int \cup real
      dur == {"TIME", "LTIME"}
      date == Dates \ dur
      chars == {"CHAR", "WCHAR"}
      elem == num \cup dur \cup date \cup AnyBit \cup chars \cup Texts
  IN CASE any = "ANY_REAL" -> real
       [] any = "ANY_INT" -> int
       [] any = "ANY_SIGNED" -> AnySigned
       [] any = "ANY_UNSIGNED" -> AnyUnsigned
       [] any = "ANY_NUM" -> num
       [] any = "ANY_MAGNITUDE" -> num \cup dur
       [] any = "ANY_DURATION" -> dur
       [] any = "ANY_DATE" -> date
       [] any = "ANY_BIT" -> AnyBit
       [] any = "ANY_STRING" -> Texts
       [] any = "ANY_CHAR" -> chars
       [] any = "ANY_CHARS" -> chars \cup Texts
       [] any \in {"ANY_ELEMENTARY", "ANY"} -> elem
       [] OTHER -> {}

(* ---- lowering                                                              *)
(* a parameter: ty its type, dir its section, ref, many (variable number),    *)
(* sized (preceded by their number). Several machine arguments may result.    *)
LowerParam(p) ==
  IF p.many THEN (IF p.sized THEN <<[m |-> "i32", sg |-> "s"]>> ELSE <<>>) \o <<[m |-> "ptr", sg |-> ""]>>
  ELSE IF p.dir # "VAR_INPUT" \/ p.ref \/ p.ty \in Texts THEN <<[m |-> "ptr", sg |-> ""]>>
  ELSE <<[m |-> Machine(p.ty), sg |-> IF p.ty \in Signed THEN "s" ELSE "u"]>>
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE LowerParam(Head(ps)) \o Flat(Tail(ps))
(* a text result is written to memory the caller passes first                 *)
Lower(u) ==
  IF u.kind = "FUNCTION_BLOCK" THEN [args |-> <<[m |-> "ptr", sg |-> ""]>>, res |-> [m |-> "void", sg |-> ""]]
  ELSE IF u.ret \in Texts THEN [args |-> <<[m |-> "ptr", sg |-> ""]>> \o Flat(u.params), res |-> [m |-> "void", sg |-> ""]]
  ELSE [args |-> Flat(u.params), res |-> IF u.ret = "" THEN [m |-> "void", sg |-> ""] ELSE [m |-> Machine(u.ret), sg |-> IF u.ret \in Signed THEN "s" ELSE "u"]]

(* the truth value of one bit is passed as a byte. A sign is only compared    *)
(* where the function states one (values narrower than a register)            *)
SameMachine(a, b) == a = b \/ {a, b} = {"i1", "i8"}
FitsOne(want, got) == SameMachine(want.m, got.m) /\ (got.sg = "" \/ got.sg = want.sg)
Fits(want, got) ==
  /\ Len(want.args) = Len(got.args)
  /\ \A i \in DOMAIN want.args : FitsOne(want.args[i], got.args[i])
  /\ FitsOne(want.res, got.res)

(* ---- names: a caller who names the arguments reaches the meant parameters  *)
NameSet(s) == {s[i] : i \in DOMAIN s}
Permuted(unit, names) ==
  /\ unit \in DOMAIN Parameters
  /\ NameSet(names) = NameSet(Parameters[unit])
  /\ names # Parameters[unit]

(* ---- a unit and the types it is called with fit its generic parameters     *)
Admits(u) == \A i \in DOMAIN u.generics : u.generics[i].ty \in Members(u.generics[i].any)

(* ---- a specialisation written in structured text takes the place of the   *)
(* generic operation wherever that is called with its types: what a call      *)
(* written against the generic declaration (g) gives must be what the         *)
(* specialisation (u) takes                                                   *)
SameType(a, b) == a = b \/ (Machine(a) # "?" /\ Machine(a) = Machine(b) /\ (a \in Signed) = (b \in Signed))
SameParam(p, q) == SameType(p.ty, q.ty) /\ p.dir = q.dir /\ p.many = q.many /\ p.sized = q.sized
Replaces(u, g) ==
  /\ Len(u.params) = Len(g.params)
  /\ \A i \in DOMAIN u.params : SameParam(u.params[i], g.params[i])
  /\ SameType(u.ret, g.ret)
Exchanged(u, g) == NameSet(u.names) = NameSet(g.names) /\ u.names # g.names

(* ---- function blocks: the variables a program sets and reads, by name, and *)
(* the types their names stand for                                            *)
CounterTypes == {"INT", "DINT", "LINT", "UDINT", "ULINT"}
Named(base, ty) == {base \o "_" \o ty} \cup (IF ty = "INT" THEN {base} ELSE {})
Timed(base, ty) == {base \o "_" \o ty} \cup (IF ty = "TIME" THEN {base} ELSE {})
Ins(vs, ty) == {<<v, ty, "VAR_INPUT">> : v \in vs}
Outs(vs, ty) == {<<v, ty, "VAR_OUTPUT">> : v \in vs}
BlockVariables(fb) ==
  UNION ({ Ins({"CU", "R"}, "BOOL") \cup Ins({"PV"}, t) \cup Outs({"Q"}, "BOOL") \cup Outs({"CV"}, t)
             : t \in {x \in CounterTypes : fb \in Named("CTU", x)} }
    \cup { Ins({"CD", "LD"}, "BOOL") \cup Ins({"PV"}, t) \cup Outs({"Q"}, "BOOL") \cup Outs({"CV"}, t)
             : t \in {x \in CounterTypes : fb \in Named("CTD", x)} }
    \cup { Ins({"CU", "CD", "R", "LD"}, "BOOL") \cup Ins({"PV"}, t) \cup Outs({"QU", "QD"}, "BOOL") \cup Outs({"CV"}, t)
             : t \in {x \in CounterTypes : fb \in Named("CTUD", x)} }
    \cup { Ins({"IN"}, "BOOL") \cup Ins({"PT"}, t) \cup Outs({"Q"}, "BOOL") \cup Outs({"ET"}, t)
             : t \in {x \in {"TIME", "LTIME"} : fb \in Timed("TON", x) \cup Timed("TOF", x) \cup Timed("TP", x)} }
    \cup { Ins({"CLK"}, "BOOL") \cup Outs({"Q"}, "BOOL") : t \in {x \in {1} : fb \in {"R_TRIG", "F_TRIG"}} }
    \cup { Ins({"SET1", "RESET"}, "BOOL") \cup Outs({"Q1"}, "BOOL") : t \in {x \in {1} : fb = "SR"} }
    \cup { Ins({"SET", "RESET1"}, "BOOL") \cup Outs({"Q1"}, "BOOL") : t \in {x \in {1} : fb = "RS"} })
Offers(vars, v) == \E i \in DOMAIN vars : vars[i].name = v[1] /\ SameType(vars[i].ty, v[2]) /\ vars[i].dir = v[3]
NotOffered(u) == {v \in BlockVariables(u.name) : ~Offers(u.vars, v)}
=============================================================================
