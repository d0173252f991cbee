----------------------------- MODULE TraceLink -----------------------------
(* Linking a PLC program against the library. The compiler turns every unit  *)
(* declared external, and every call of a generic operation, into a          *)
(* reference to a symbol; a unit with a body defines that symbol itself. The *)
(* observed library is one record: what the structured text declares         *)
(* external, what it defines with a body, and what the library exports.      *)
EXTENDS Interface, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

ToSet(s) == {s[i] : i \in DOMAIN s}
(* names a program can call: non-generic units and the specialisations       *)
Callable == FunctionBlocks \cup Functions \cup Specialisations
Links(r, name) == \/ name \in ToSet(r.exported)
                  \/ name \in ToSet(r.defined)
(* a declared unit that is external must come from the library: its body, if *)
(* it has one, is not compiled                                               *)
Unbacked(r) == {n \in ToSet(r.external) : n \notin ToSet(r.exported)}
Missing(r) == {n \in Callable : ~Links(r, n)}
(* a name users call must still be declared (generic calls need the generic) *)
Undeclared(r) == {n \in FunctionBlocks \cup Functions \cup Generics : n \notin ToSet(r.declared)}

LinkVerdict(r) ==
  IF Unbacked(r) # {} THEN "declared external but not exported: " \o ToString(Unbacked(r))
  ELSE IF Missing(r) # {} THEN "no definition to link for: " \o ToString(Missing(r))
  ELSE IF Undeclared(r) # {} THEN "no longer declared: " \o ToString(Undeclared(r))
  ELSE "ok"
LinkClass(r) == "link"

VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- LinkVerdict, Class <- LinkClass
=============================================================================
