---------------------------- MODULE DeclareLaws -----------------------------
(* Consistency of the facts derived from a token list.                     *)
EXTENDS Declare
CONSTANT MaxLen
VARIABLE t
Init == Init0(<<1>>, "Z") /\ t \in UNION {[1 .. n -> {"+", "-", "0"}] : n \in 1 .. MaxLen}
Spec == Init /\ [][FALSE]_<<vars, t>>
F == FactsOf(t, <<>>)
s == SigOf(t)
LPartition == /\ F.plus \cup F.minus \cup F.null = Gens(s)
              /\ F.dims[2] + F.dims[3] + F.dims[4] = F.dims[1]
              /\ F.plus = PosGens(s) /\ F.minus = NegGens(s) /\ F.null = NullGens(s)
\* the traits in terms of the product
LTraits == WellFormed(t, <<>>) =>
  /\ F.traits[1] <=> \A b \in Blades(s) : GeoSign(s, b, b) # 0
  /\ F.traits[2] => F.traits[1]
  /\ F.traits[5] <=> F.traits[3] \/ F.traits[4]
  \* no zero divisors among 1 + b, 1 - b: squares of all blades are negative
  /\ F.traits[5] <=> (Len(t) <= 2 /\ \A b \in Blades(s) \ {{}} : GeoSign(s, b, b) = -1)
  /\ F.pga # {} => ~F.traits[1]
  /\ Cardinality(F.pga) <= 1
LNames == Cardinality({F.names[i] : i \in 1 .. Len(t)}) = Len(t)
LForm == WellFormed(t, <<>>) <=> \E k \in 0 .. Len(t) : \A i \in 1 .. Len(t) : t[i] = "0" <=> i > k
=============================================================================
