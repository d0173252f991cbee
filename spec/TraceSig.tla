------------------------------ MODULE TraceSig ------------------------------
(* One record per exported function that a declaration describes (kind "fn"), *)
(* and one per specialisation that the structured text defines itself, with   *)
(* the generic declaration for its types (kind "st").                         *)
EXTENDS Signatures, TLC, Json, IOUtils
SpecVerdict(r) ==
  IF ~Admits(r.g) THEN "the generic declaration does not admit the types of the specialisation"
  ELSE IF Exchanged(r.u, r.g) THEN "parameters in another order than the generic declares: " \o ToString(r.u.names)
  ELSE IF ~Replaces(r.u, r.g) THEN "a call passes " \o ToString(r.g.params) \o " but the specialisation takes " \o ToString(r.u.params)
  ELSE "ok"
CallVerdict(r) ==
  IF ~Admits(r.u) THEN "the declaration does not admit the documented types"
  ELSE IF NotOffered(r.u) # {} THEN "without the variables " \o ToString(NotOffered(r.u))
  ELSE IF Permuted(r.u.name, r.u.names) THEN "parameters in another order than the function takes them: " \o ToString(r.u.names)
  ELSE IF ~Fits(Lower(r.u), r.f) THEN "the declaration passes " \o ToString(Lower(r.u)) \o " but the function takes " \o ToString(r.f)
  ELSE "ok"
SigVerdict(r) == IF r.kind = "st" THEN SpecVerdict(r) ELSE CallVerdict(r)
SigClass(r) == IF r.kind = "st" THEN "specialisation" ELSE r.u.kind \o IF r.u.generics = <<>> THEN "" ELSE " generic"
VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- SigVerdict, Class <- SigClass
=============================================================================
