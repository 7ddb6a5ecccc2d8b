-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of the value domain, checked exhaustively: the state is a          *)
(* signature and three basis blades, steps add or remove one generator in  *)
(* one of the blades, so every combination is reached.  Products are       *)
(* bilinear, so laws of blades carry over to all multivectors (bilinearity *)
(* itself is checked in MvLaws).                                           *)
(***************************************************************************)
EXTENDS Rep, TLC

CONSTANTS MaxDim, MinDim

VARIABLES sig, a, b, c

Sigs == UNION {{s \in [1 .. n -> {1, -1, 0}] :
                  \A i \in 1 .. n - 1 : s[i] = 0 => s[i + 1] = 0} : n \in MinDim .. MaxDim}

Toggle(x, g) == IF g \in x THEN x \ {g} ELSE x \cup {g}

\* three blades
Init == sig \in Sigs /\ a = {} /\ b = {} /\ c = {}
Next == \E g \in Gens(sig) :
          /\ \/ a' = Toggle(a, g) /\ UNCHANGED <<b, c>>
             \/ b' = Toggle(b, g) /\ UNCHANGED <<a, c>>
             \/ c' = Toggle(c, g) /\ UNCHANGED <<a, b>>
          /\ UNCHANGED sig
Spec3 == Init /\ [][Next]_<<sig, a, b, c>>
\* two blades
Next2 == \E g \in Gens(sig) :
          /\ \/ a' = Toggle(a, g) /\ UNCHANGED <<b, c>>
             \/ b' = Toggle(b, g) /\ UNCHANGED <<a, c>>
          /\ UNCHANGED sig
Spec2 == Init /\ [][Next2]_<<sig, a, b, c>>

M(x) == Mono("Z", x, 1)
MG(x) == Mono("G", x, <<1, 0>>)
S(s, x) == <<s, IF s = 0 THEN {} ELSE x>>       \* signed blade

----------------------------------------------------------------------------
(* C01 *)
L01Word == LET w == WordProduct(sig, a, b)
           IN S(w[1], w[2]) = S(GeoSign(sig, a, b), BladeXor(a, b))
L01Assoc == S(GeoSign(sig, a, b) * GeoSign(sig, BladeXor(a, b), c), BladeXor(BladeXor(a, b), c))
          = S(GeoSign(sig, b, c) * GeoSign(sig, a, BladeXor(b, c)), BladeXor(a, BladeXor(b, c)))
L01Gen == \A i, j \in Gens(sig) :
            IF i = j THEN GeoMul(sig, "Z", M({i}), M({i})) = Mono("Z", {}, sig[i + 1])
            ELSE MvAdd("Z", GeoMul(sig, "Z", M({i}), M({j})), GeoMul(sig, "Z", M({j}), M({i}))) = MvZero
(* C02 *)
L02Assoc == Wedge(sig, "Z", Wedge(sig, "Z", M(a), M(b)), M(c)) = Wedge(sig, "Z", M(a), Wedge(sig, "Z", M(b), M(c)))
L02Grade == Wedge(sig, "Z", M(a), M(b)) = GradePart(GeoMul(sig, "Z", M(a), M(b)), {Cardinality(a) + Cardinality(b)})
L02Anti == Wedge(sig, "Z", M(a), M(b)) =
             MvScaleR("Z", Wedge(sig, "Z", M(b), M(a)), IF (Cardinality(a) * Cardinality(b)) % 2 = 0 THEN 1 ELSE -1)
L02MeetUnit == Meet(sig, "Z", M(Gens(sig)), M(a)) = M(a) /\ Meet(sig, "Z", M(a), M(Gens(sig))) = M(a)
L02MeetAssoc == Meet(sig, "Z", Meet(sig, "Z", M(a), M(b)), M(c)) = Meet(sig, "Z", M(a), Meet(sig, "Z", M(b), M(c)))
L02MeetZero == (Meet(sig, "Z", M(a), M(b)) # MvZero) <=> (a \cup b = Gens(sig))
(* C05 *)
L05Sum == LET f == [x \in {a, b, c} |-> 1]
          IN FoldSet(LAMBDA k, acc : MvAdd("Z", acc, GradePart(f, {k})), MvZero, 0 .. Dim(sig)) = f
L05Count == \A k \in 0 .. Dim(sig) : Cardinality({x \in Blades(sig) : Cardinality(x) = k}) = Cardinality(KSubs(Dim(sig), k))
(* C06 *)
L06Rev == Rev("Z", GeoMul(sig, "Z", M(a), M(b))) = GeoMul(sig, "Z", Rev("Z", M(b)), Rev("Z", M(a)))
L06Flip == Flip("Z", GeoMul(sig, "Z", M(a), M(b))) = GeoMul(sig, "Z", Flip("Z", M(a)), Flip("Z", M(b)))
L06FlipSub == FlipSub("Z", GeoMul(sig, "Z", M(a), M(b)), c)
            = GeoMul(sig, "Z", FlipSub("Z", M(a), c), FlipSub("Z", M(b), c))
L06Invol == /\ Rev("Z", Rev("Z", M(a))) = M(a) /\ Flip("Z", Flip("Z", M(a))) = M(a)
            /\ FlipSub("Z", FlipSub("Z", M(a), b), b) = M(a)
            /\ FlipSub("Z", M(a), Gens(sig)) = Flip("Z", M(a))
\* reversal really is writing the word backwards
L06Word == LET w == Reduce(sig, Reverse(Descending(a)), 1) IN w[1] = RevSign(a) /\ ToSet(w[2]) = a
(* C07 *)
L07Inv == Undual(sig, "Z", Dual(sig, "Z", M(a))) = M(a) /\ Dual(sig, "Z", Undual(sig, "Z", M(a))) = M(a)
L07Ps == /\ Wedge(sig, "Z", Dual(sig, "Z", M(a)), M(a)) = M(Gens(sig))
         /\ Wedge(sig, "Z", M(a), Undual(sig, "Z", M(a))) = M(Gens(sig))
L07Blade == DOMAIN Dual(sig, "Z", M(a)) = {Gens(sig) \ a}
(* C08 *)
L08VDot == VDot(sig, "Z", M(a), M(b)) = ScalarPart("Z", GeoMul(sig, "Z", M(a), M(b)))
L08VsDot == VsDot("Z", M(a), M(b)) = IF a = b THEN 1 ELSE 0
L08Mag == LET f == MvAdd("Z", M(a), MvScaleR("Z", M(b), 2))
          IN Mag2(sig, "Z", f) = ScalarPart("Z", GeoMul(sig, "Z", Rev("Z", f), f))
L08CMag == LET f == MvAdd("G", MG(a), MvScaleR("G", MG(b), <<1, 2>>))
           IN CMag2(sig, "G", f) = ScalarPart("G", GeoMul(sig, "G", RevC("G", f), f))
(* C09, C10, C11, C13: the representation *)
NonDeg == NullGens(sig) = {}
L09Unique == NonNull(sig) % 2 = 0 => UnRepScaled(sig, RepArr(sig, MG(a))) = Mono("G", a, <<Side(sig), 0>>)
L09Inj == (a # b) => RepArr(sig, MG(a)) # RepArr(sig, MG(b))
L09Shape == \A k \in DOMAIN RepArr(sig, MG(a)) : k[1] < Shape(sig)[1] /\ k[2] < Side(sig) /\ k[3] < Side(sig)
L10Hom == NonDeg => RepArr(sig, GeoMul(sig, "G", MG(a), MG(b))) = MatMul(RepArr(sig, MG(a)), RepArr(sig, MG(b)))
\* left factors of null generators: slice w of n_w x is the matrix of x, and x n_w = n_w alpha^|w|(x)
L10Null == LET nu == a \cap NullGens(sig) x == b \ NullGens(sig) IN
           /\ GeoMul(sig, "G", MG(nu), MG(x)) = MG(nu \cup x)
           /\ GeoMul(sig, "G", MG(x), MG(nu)) =
                GeoMul(sig, "G", MG(nu), IF Cardinality(nu) % 2 = 0 THEN MG(x) ELSE Flip("G", MG(x)))
L11Trace == Trace0(sig, RepArr(sig, MG(a))) = IF a = {} THEN <<Side(sig), 0>> ELSE <<0, 0>>
L11Flip == \A k \in DOMAIN RepArr(sig, MG(a)) :
             ((PopC(k[1]) + PopC(XorI(k[2], k[3]))) % 2 = 0) <=> (Cardinality(a) % 2 = 0)
\* even elements preserve the parity of spinor indices, so the half-spin blocks are multiplicative
Ev(x) == IF Cardinality(x) % 2 = 0 THEN x ELSE Toggle(x, 0)
L11Half == (NonDeg /\ NonNull(sig) % 2 = 0) =>
             \A p \in {0, 1} :
               HalfSpin(Side(sig), RepArr(sig, GeoMul(sig, "G", MG(Ev(a)), MG(Ev(b)))), p)
             = MatMul(HalfSpin(Side(sig), RepArr(sig, MG(Ev(a))), p), HalfSpin(Side(sig), RepArr(sig, MG(Ev(b))), p))
(* C12: blades with square +-1 are units, 1 + B and 1 - B annihilate each other for B^2 = 1 *)
L12Unit == LET s == GeoSign(sig, a, a) IN
           s # 0 => GeoMul(sig, "Z", M(a), MvScaleR("Z", M(a), s)) = MvOne("Z")
L12ZeroDiv == (a # {} /\ GeoSign(sig, a, a) = 1) =>
           GeoMul(sig, "Z", MvAdd("Z", MvOne("Z"), M(a)), MvSub("Z", MvOne("Z"), M(a))) = MvZero
\* (1 + u)/2 and (1 - u)/2 are complementary idempotents, so x = p (1 + u) + q (1 - u) has inverse (1 + u)/4p + (1 - u)/4q
L12Pole == \A w \in {<<1, 0>>, <<0, 1>>} :
           LET u == Mono("G", a, w)
               one == MvOne("G")
               P == MvAdd("G", one, u)
               Q == MvSub("G", one, u)
           IN  (a # {} /\ GeoMul(sig, "G", u, u) = one) =>
                 /\ GeoMul(sig, "G", P, Q) = MvZero /\ GeoMul(sig, "G", Q, P) = MvZero
                 /\ GeoMul(sig, "G", P, P) = MvScaleR("G", P, <<2, 0>>) /\ GeoMul(sig, "G", Q, Q) = MvScaleR("G", Q, <<2, 0>>)
                 /\ MvAdd("G", P, Q) = Scal("G", <<2, 0>>)
L12Vec == \* a vector is a unit iff its square is not zero
          LET v == MvAdd("Z", M({0}), IF Dim(sig) > 1 THEN MvScaleR("Z", M({1}), 2) ELSE MvZero)
          IN DOMAIN GeoMul(sig, "Z", v, v) \subseteq {{}}
\* blades are represented by unitary matrices: one entry of modulus one in every row and column
L12Unitary == NonDeg => LET r == RepArr(sig, MG(a)) IN
              /\ \A i \in 0 .. (Side(sig) - 1) : Cardinality({k \in DOMAIN r : k[2] = i}) = 1 /\ Cardinality({k \in DOMAIN r : k[3] = i}) = 1
              /\ \A k \in DOMAIN r : r[k][1] * r[k][1] + r[k][2] * r[k][2] = 1
(* C13: what the involutions are on matrices *)
AllPlus == \A i \in 1 .. Len(sig) : sig[i] = 1
L13Alpha == NonDeg => RepArr(sig, Flip("G", MG(a))) =
              [k \in DOMAIN RepArr(sig, MG(a)) |->
                 CMul("G", RepArr(sig, MG(a))[k], <<IF PopC(XorI(k[2], k[3])) % 2 = 0 THEN 1 ELSE -1, 0>>)]
\* negating the odd generators twice is nothing, and it is an automorphism
OddG == {g \in Gens(sig) : g % 2 = 1}
L13Beta == NonDeg => RepArr(sig, FlipSub("G", GeoMul(sig, "G", MG(a), MG(b)), OddG))
                   = MatMul(RepArr(sig, FlipSub("G", MG(a), OddG)), RepArr(sig, FlipSub("G", MG(b), OddG)))
\* in the all-plus algebra reversal is transposition after negating the odd generators
L13Rev == AllPlus => LET r == RepArr(sig, FlipSub("G", MG(a), OddG)) IN
            RepArr(sig, Rev("G", MG(a))) = [k \in {<<x[1], x[3], x[2]>> : x \in DOMAIN r} |-> r[<<k[1], k[3], k[2]>>]]
(* C14: the closed form of the exponential of a commuting pair does not depend on the order, *)
(* and inverse arguments give inverse results                                              *)
UExp(x, k) == LET s == GeoSign(sig, x, x) one == MvOne("Z") u == M(x) IN   \* times 2^(k+1) if s = 1
  IF s = 0 THEN MvAdd("Z", one, MvScaleR("Z", u, k))
  ELSE IF s = -1 THEN (CASE k % 4 = 0 -> one [] k % 4 = 1 -> u [] k % 4 = 2 -> MvNeg("Z", one) [] k % 4 = 3 -> MvNeg("Z", u))
  ELSE LET p == 4 ^ (IF k < 0 THEN -k ELSE k) IN MvAdd("Z", MvScaleR("Z", one, p + 1), MvScaleR("Z", u, IF k < 0 THEN 1 - p ELSE p - 1))
L14Unit == /\ \A k \in 0 .. 3 : GeoMul(sig, "Z", UExp(a, k), UExp(a, -k))
                               = Scal("Z", IF GeoSign(sig, a, a) = 1 THEN 4 ^ (k + 1) ELSE 1)
           /\ \A k \in 0 .. 2 : \* exp(2x) = exp(x)^2, scaled
                MvScaleR("Z", UExp(a, 2 * k), IF GeoSign(sig, a, a) = 1 THEN 2 ELSE 1)
                  = GeoMul(sig, "Z", UExp(a, k), UExp(a, k))
           /\ GeoSign(sig, a, b) = GeoSign(sig, b, a) =>
                GeoMul(sig, "Z", UExp(a, 1), UExp(b, 3)) = GeoMul(sig, "Z", UExp(b, 3), UExp(a, 1))
(* C17 *)
QSig == sig = <<-1, -1>>
Conj(f) == Flip("Z", Rev("Z", f))
L17Units == QSig => LET i == M({0}) j == M({1}) k == MvNeg("Z", M({0, 1})) m == MvNeg("Z", MvOne("Z")) IN
             /\ GeoMul(sig, "Z", i, i) = m /\ GeoMul(sig, "Z", j, j) = m /\ GeoMul(sig, "Z", k, k) = m
             /\ GeoMul(sig, "Z", i, j) = k /\ GeoMul(sig, "Z", j, k) = i /\ GeoMul(sig, "Z", k, i) = j
L17Conj == (sig = <<-1, -1>> \/ sig = <<-1>>) =>
             /\ Conj(M(a)) = IF a = {} THEN M(a) ELSE MvNeg("Z", M(a))
             /\ LET f == MvAdd("Z", M(a), MvScaleR("Z", M(b), 3))
                IN GeoMul(sig, "Z", f, Conj(f)) = Scal("Z", FoldFunctionOnSet(+, 0, [x \in DOMAIN f |-> f[x] * f[x]], DOMAIN f))
(* C20 *)
L20Hom == Complexify(sig, GeoMul(sig, "G", MG(a), MG(b)))
        = GeoMul(CplxSig(sig), "G", Complexify(sig, MG(a)), Complexify(sig, MG(b)))
L20Inv == Decomplexify(sig, Complexify(sig, MG(a))) = MG(a)
=============================================================================
