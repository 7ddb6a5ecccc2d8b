------------------------------- MODULE Declare ------------------------------
(***************************************************************************)
(* Declarations of algebras as programs.  A declaration is a list of       *)
(* tokens "+", "-", "0", optionally with names of the generators.  The     *)
(* compiler accepts it iff it is well-formed; everything the library       *)
(* reports about the declared algebra follows from the tokens.             *)
(***************************************************************************)
EXTENDS Text

MaxGens == 63       \* a blade is a machine word of 64 bits and 2^dim has to fit as well
NullsLast(t) == \A i, j \in 1 .. Len(t) : i < j /\ t[i] = "0" => t[j] = "0"
WellFormed(t, names) == /\ Len(t) \in 1 .. MaxGens
                        /\ NullsLast(t)
                        /\ names # <<>> => Len(names) = Len(t)

GensOf(t, c) == {i - 1 : i \in {j \in 1 .. Len(t) : t[j] = c}}
SigOf(t) == [i \in 1 .. Len(t) |-> CASE t[i] = "+" -> 1 [] t[i] = "-" -> -1 [] t[i] = "0" -> 0]
AxisNames(t, names) == IF names = <<>> THEN [i \in 1 .. Len(t) |-> "e" \o ToString(i - 1)] ELSE names

\* marker traits
NonDeg(t) == GensOf(t, "0") = {}
Split(t) == Len(t) % 2 = 0 /\ \A i \in 1 .. Len(t) : t[i] = IF i % 2 = 1 THEN "+" ELSE "-"
\* dimensions of the projective space (none or one)
Pga(t) == IF Len(t) >= 2 /\ GensOf(t, "0") = {Len(t) - 1} /\ GensOf(t, "-") = {} THEN {Len(t) - 1} ELSE {}
IsComplex(t) == t = <<"-">>
IsQuat(t) == t = <<"-", "-">>
IsDiv(t) == IsComplex(t) \/ IsQuat(t)

Verdict(b) == Show("seq", IF b THEN "accepted" ELSE "rejected")
DeclareA(e) == Verdict(WellFormed(e.toks, e.names))
\* two multivectors can be combined iff they belong to the same declaration
Combine(e) == Verdict(e.a = e.b)
\* calls that need a marker trait
Needs(e) == Verdict(CASE e.trait = "NonDegenerate" -> NonDeg(e.toks)
                      [] e.trait = "SplitSignature" -> Split(e.toks)
                      [] e.trait = "ComplexAlgebra" -> IsComplex(e.toks)
                      [] e.trait = "QuaternionicAlgebra" -> IsQuat(e.toks)
                      [] e.trait = "DivisionAlgebra" -> IsDiv(e.toks)
                      [] e.trait = "PGAlgebra" -> e.n \in Pga(e.toks))

FactsOf(t, names) ==
  [dims |-> <<Len(t), Cardinality(GensOf(t, "+")), Cardinality(GensOf(t, "-")), Cardinality(GensOf(t, "0"))>>,
   plus |-> GensOf(t, "+"), minus |-> GensOf(t, "-"), null |-> GensOf(t, "0"),
   sig |-> SigOf(t), names |-> AxisNames(t, names),
   traits |-> <<NonDeg(t), Split(t), IsComplex(t), IsQuat(t), IsDiv(t)>>,
   pga |-> Pga(t)]
Facts(e) == IF WellFormed(e.toks, e.names) THEN Show("facts", FactsOf(e.toks, e.names)) ELSE Fail("undefined")
\* the basis arrays: one generator each, in order, with coefficient one
BasisA(e) == Show("seq", [i \in 1 .. Len(e.toks) |-> <<<<<<i - 1>>, 1>>>>])
\* the algebra of complexified multivectors: the same generators, those of negative square times i
CplxNames(names) == [i \in 1 .. Len(sig) |-> IF sig[i] = -1 THEN "(i*" \o names[i] \o ")" ELSE names[i]]
CplxAlg(e) ==
  LET t == CplxSig(sig)
      n == CplxNames(e.names)
      b == Bl(e.b)
  IN  Show("calg", [dims |-> <<Len(t), Cardinality(PosGens(t)), Cardinality(NegGens(t)), Cardinality(NullGens(t))>>,
                    plus |-> PosGens(t), minus |-> NegGens(t), null |-> NullGens(t),
                    names |-> n, labels |-> <<Label(n, b), LabelRev(n, b)>>,
                    signs |-> <<GeoSign(t, b, Bl(e.c)), GeoSign(t, b, b)>>])
LabelA(e) == LET n == AxisNames(e.toks, e.names) IN Show("seq", <<Label(n, Bl(e.b)), LabelRev(n, Bl(e.b))>>)
=============================================================================
