----------------------------- MODULE MCUnicode -----------------------------
(* Decoding on every short sequence of code units, well formed or not: the   *)
(* two formulations agree, what is accepted encodes back to itself, and no   *)
(* other characters have that encoding.                                      *)
EXTENDS Unicode
CONSTANTS MaxUnits

(* ends of the ranges of leading and continuation bytes; of surrogates       *)
Bytes8 == {97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245, 255}
Words == {97, 55295, 55296, 56319, 56320, 57343, 57344, 65535}
VARIABLES u, enc
Init == u = <<>> /\ enc \in {"S", "W"}
Next == Len(u) < MaxUnits /\ (\E x \in IF enc = "S" THEN Bytes8 ELSE Words : u' = Append(u, x)) /\ UNCHANGED enc
Spec == Init /\ [][Next]_<<u, enc>>

Agree == Decode(enc, u) = DecodeFrom(enc, u, 1, <<>>)
LossyAgree == enc = "W" => Lossy16(u) = LossyFrom(u, 1, <<>>)
Faithful == LET d == Decode(enc, u) IN d.ok => /\ Encode(enc, d.cs) = u
                                               /\ \A i \in DOMAIN d.cs : IsScalar(d.cs[i])
LossyExtends == enc = "W" => LET d == Decode(enc, u) IN
  /\ d.ok => Lossy16(u) = d.cs
  /\ Decode("S", Encode("S", Lossy16(u))) = [ok |-> TRUE, cs |-> Lossy16(u)]
=============================================================================
