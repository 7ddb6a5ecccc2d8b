------------------------------ MODULE Clifford ------------------------------
(***************************************************************************)
(* The mathematical value domain of the library.                           *)
(*                                                                         *)
(* A signature is a sequence over {1, -1, 0}: generator g (counted from 0) *)
(* squares to sig[g + 1].  A basis blade is a finite set of generators and *)
(* denotes the product of its generators in DESCENDING order, which is how *)
(* the library numbers and prints them (index 0b11 is e1^e0).              *)
(* A multivector over ring r is a function from blades to non-zero         *)
(* coefficients; the missing blades have coefficient zero.                 *)
(***************************************************************************)
EXTENDS Coeff, FiniteSets, FiniteSetsExt, Functions, SequencesExt

Dim(sig) == Len(sig)
Gens(sig) == 0 .. (Len(sig) - 1)
PosGens(sig) == {g \in Gens(sig) : sig[g + 1] = 1}
NegGens(sig) == {g \in Gens(sig) : sig[g + 1] = -1}
NullGens(sig) == {g \in Gens(sig) : sig[g + 1] = 0}
NonNull(sig) == Cardinality(Gens(sig)) - Cardinality(NullGens(sig))
Blades(sig) == SUBSET Gens(sig)

BladeXor(a, b) == (a \ b) \cup (b \ a)

(***************************************************************************)
(* Products of blades.  `Inversions' counts the transpositions needed to   *)
(* bring the word of a followed by the word of b in descending order.      *)
(***************************************************************************)
Inversions(a, b) == Cardinality({p \in a \X b : p[1] < p[2]})
AcSign(a, b) == IF Inversions(a, b) % 2 = 0 THEN 1 ELSE -1
WedgeSign(a, b) == IF a \cap b # {} THEN 0 ELSE AcSign(a, b)
GeoSign(sig, a, b) ==
  LET c == a \cap b
  IN  IF \E g \in c : sig[g + 1] = 0 THEN 0
      ELSE IF (Inversions(a, b) + Cardinality({g \in c : sig[g + 1] = -1})) % 2 = 0 THEN 1 ELSE -1

(***************************************************************************)
(* First-principles definition by rewriting words of generators with the   *)
(* two relations e_i e_j = -e_j e_i and e_i e_i = sig_i.  Only used to     *)
(* check the closed forms above.                                           *)
(***************************************************************************)
Descending(a) == SetToSortSeq(a, LAMBDA x, y : x > y)
RECURSIVE Reduce(_, _, _)
Reduce(sig, w, s) ==      \* w: word, s: sign so far; result <<sign, descending word>>
  IF s = 0 THEN <<0, <<>>>>
  ELSE LET bad == {i \in 1 .. (Len(w) - 1) : w[i] <= w[i + 1]}
       IN IF bad = {} THEN <<s, w>>
          ELSE LET i == Min(bad)
               IN IF w[i] = w[i + 1]
                  THEN Reduce(sig, SubSeq(w, 1, i - 1) \o SubSeq(w, i + 2, Len(w)), s * sig[w[i] + 1])
                  ELSE Reduce(sig, [w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]], -s)
WordProduct(sig, a, b) == LET r == Reduce(sig, Descending(a) \o Descending(b), 1)
                          IN  <<r[1], ToSet(r[2])>>

(***************************************************************************)
(* Multivectors                                                            *)
(***************************************************************************)
MvZero == [b \in {} |-> 0]
Canon(r, f) == [b \in {x \in DOMAIN f : ~CIsZero(r, f[x])} |-> f[b]]
IsMv(sig, r, f) == /\ \A b \in DOMAIN f : b \subseteq Gens(sig) /\ ~CIsZero(r, f[b])
Coef(r, f, b) == IF b \in DOMAIN f THEN f[b] ELSE CZero(r)
Mono(r, b, c) == Canon(r, [x \in {b} |-> c])
Scal(r, c) == Mono(r, {}, c)
MvOne(r) == Scal(r, COne(r))

CSumOver(r, S, F(_)) == FoldSet(LAMBDA x, acc : CAdd(r, acc, F(x)), CZero(r), S)

MvAdd(r, f, g) == Canon(r, [b \in DOMAIN f \cup DOMAIN g |-> CAdd(r, Coef(r, f, b), Coef(r, g, b))])
MvMap(f, F(_, _)) == [b \in DOMAIN f |-> F(b, f[b])]
MvNeg(r, f) == Canon(r, [b \in DOMAIN f |-> CNeg(r, f[b])])
MvSub(r, f, g) == MvAdd(r, f, MvNeg(r, g))
MvScaleR(r, f, c) == Canon(r, [b \in DOMAIN f |-> CMul(r, f[b], c)])      \* scalar from the right

\* bilinear extension of a signed product of blades that multiplies indices by symmetric difference
\* (the terms of a coefficient of the product are enumerated by the operand with fewer terms)
Bilinear(r, Sg(_, _), f, g) ==
  LET Df == DOMAIN f
      Dg == DOMAIN g
      R == {BladeXor(x, y) : x \in Df, y \in Dg}
      Pair(x, y) == IF x \in Df /\ y \in Dg
                    THEN IF r = "Z" THEN Sg(x, y) * f[x] * g[y] ELSE CSigned(r, Sg(x, y), CMul(r, f[x], g[y]))
                    ELSE CZero(r)
      Sum(F, D) == IF r = "Z" THEN FoldFunctionOnSet(+, 0, F, D)
                   ELSE FoldFunctionOnSet(LAMBDA p, q : CAdd(r, p, q), CZero(r), F, D)
  IN  Canon(r, IF Cardinality(Df) <= Cardinality(Dg)
               THEN [t \in R |-> Sum([x \in Df |-> Pair(x, BladeXor(x, t))], Df)]
               ELSE [t \in R |-> Sum([y \in Dg |-> Pair(BladeXor(t, y), y)], Dg)])

GeoMul(sig, r, f, g) == Bilinear(r, LAMBDA x, y : GeoSign(sig, x, y), f, g)
Wedge(sig, r, f, g) == Bilinear(r, WedgeSign, f, g)

Compl(sig, b) == Gens(sig) \ b
Dual(sig, r, f) == [b \in {Compl(sig, x) : x \in DOMAIN f} |->
                      CSigned(r, WedgeSign(b, Compl(sig, b)), f[Compl(sig, b)])]
Undual(sig, r, f) == [b \in {Compl(sig, x) : x \in DOMAIN f} |->
                      CSigned(r, WedgeSign(Compl(sig, b), b), f[Compl(sig, b)])]
Meet(sig, r, f, g) == Undual(sig, r, Wedge(sig, r, Dual(sig, r, f), Dual(sig, r, g)))

RevSign(b) == IF Cardinality(b) % 4 \in {0, 1} THEN 1 ELSE -1
ParSign(b) == IF Cardinality(b) % 2 = 0 THEN 1 ELSE -1
Rev(r, f) == [b \in DOMAIN f |-> CSigned(r, RevSign(b), f[b])]
Flip(r, f) == [b \in DOMAIN f |-> CSigned(r, ParSign(b), f[b])]
FlipSub(r, f, m) == [b \in DOMAIN f |-> CSigned(r, ParSign(b \cap m), f[b])]
RevC(r, f) == [b \in DOMAIN f |-> CConj(r, CSigned(r, RevSign(b), f[b]))]

Restrict2(f, S) == [b \in DOMAIN f \cap S |-> f[b]]
GradePart(f, ks) == [b \in {x \in DOMAIN f : Cardinality(x) \in ks} |-> f[b]]
ScalarPart(r, f) == Coef(r, f, {})

VsDot(r, f, g) == CSumOver(r, DOMAIN f \cap DOMAIN g, LAMBDA b : CMul(r, f[b], g[b]))
VDot(sig, r, f, g) == CSumOver(r, DOMAIN f \cap DOMAIN g,
                               LAMBDA b : CSigned(r, GeoSign(sig, b, b), CMul(r, f[b], g[b])))
Mag2(sig, r, f) == VDot(sig, r, Rev(r, f), f)
CMag2(sig, r, f) == VDot(sig, r, RevC(r, f), f)

RECURSIVE MvPow(_, _, _, _)
MvPow(sig, r, f, n) == IF n = 0 THEN MvOne(r) ELSE GeoMul(sig, r, MvPow(sig, r, f, n - 1), f)
\* the exponent as a sequence of binary digits, most significant first
MvPowBits(sig, r, f, bits) ==
  FoldLeft(LAMBDA acc, b : LET s == GeoMul(sig, r, acc, acc) IN IF b = 1 THEN GeoMul(sig, r, s, f) ELSE s, MvOne(r), bits)
\* Gaussian coefficients up to multiples of m, so that powers with any exponent stay bounded
ModG(f, m) == Canon("G", [b \in DOMAIN f |-> <<f[b][1] % m, f[b][2] % m>>])
MvPowMod(sig, f, bits, m) ==
  LET P(x, y) == ModG(GeoMul(sig, "G", x, y), m)
  IN  FoldLeft(LAMBDA acc, b : LET s == P(acc, acc) IN IF b = 1 THEN P(s, f) ELSE s, MvOne("G"), bits)

\* grades and index sets
KSubs(n, k) == {b \in SUBSET (0 .. (n - 1)) : Cardinality(b) = k}

\* blade index as an integer (only meaningful below 31 generators)
RECURSIVE Bits(_)
Bits(b) == IF b = {} THEN 0 ELSE LET g == Max(b) IN 2 ^ g + Bits(b \ {g})

(***************************************************************************)
(* Complexification: Cl(p,q,s) -> Cl(p+q,0,s) over the complex numbers.    *)
(***************************************************************************)
CplxSig(sig) == [i \in DOMAIN sig |-> IF sig[i] = -1 THEN 1 ELSE sig[i]]
Complexify(sig, f) == [b \in DOMAIN f |-> CMul("G", IPow(-Cardinality(b \cap NegGens(sig))), f[b])]
Decomplexify(sig, f) == [b \in DOMAIN f |-> CMul("G", IPow(Cardinality(b \cap NegGens(sig))), f[b])]
ToG(r, f) == IF r = "G" THEN f ELSE [b \in DOMAIN f |-> <<f[b], 0>>]
=============================================================================
