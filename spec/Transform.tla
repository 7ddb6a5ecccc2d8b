----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Calls on the fast matrix representation.  Registers f0..f3 hold the     *)
(* multivector (over "G") that a representation stands for; the array      *)
(* itself is RepArr of it.                                                 *)
(***************************************************************************)
EXTENDS Machine

StoreF(e, v) == Store(e, v)
G == "G"

FromG(f) == IF ring = "G" THEN f ELSE [b \in DOMAIN f |-> f[b][1]]
IsReal(f) == \A b \in DOMAIN f : f[b][2] = 0
ArrOfList(a) ==
  LET ks == TLCEval([i \in 1 .. Len(a) |-> <<a[i][1], a[i][2], a[i][3]>>])
      D == {ks[i] : i \in 1 .. Len(a)}
      at == TLCEval([k \in D |-> CHOOSE i \in 1 .. Len(a) : ks[i] = k])
  IN  Canon(G, [k \in D |-> <<a[at[k]][4], a[at[k]][5]>>])
ArrDiv(a, n) == [k \in DOMAIN a |-> <<CDivExact("Z", a[k][1], n), CDivExact("Z", a[k][2], n)>>]

(* Transform and back                                                      *)
Fft(e) == LET v == TLCEval(ToG(ring, R(e.x)))
          IN  /\ out' = Ok("arr", RepArr(sig, v)) /\ regs' = [regs EXCEPT ![e.d] = v] /\ Keep
IFft(e) == Store(e, FromG(R(e.x)))
FView(e) == Show("arr", RepArr(sig, R(e.x)))
FShape(e) == Show("seq", Shape(sig))
\* array taken out and put back
FRound(e) == StoreF(e, R(e.x))
\* any array of the right shape is a representation if the number of non-null generators is even;
\* the recorded arrays have entries divisible by the side
FromArr(e) ==
  IF e.sh = Shape(sig) THEN StoreF(e, ArrDiv(UnRepScaled(sig, ArrOfList(e.a)), Side(sig)))
  ELSE Fail("InvalidShape")

(* Arithmetic                                                              *)
FAdd(e) == StoreF(e, MvAdd(G, R(e.x), R(e.y)))
FSub(e) == StoreF(e, MvSub(G, R(e.x), R(e.y)))
FNeg(e) == StoreF(e, MvNeg(G, R(e.x)))
FMul(e) == StoreF(e, GeoMul(sig, G, R(e.x), R(e.y)))
FScale(e) == StoreF(e, MvScaleR(G, R(e.x), e.c))
FSDiv(e) == StoreF(e, MvMap(R(e.x), LAMBDA b, c : CDivExact(G, c, e.c)))
FPow(e) == StoreF(e, MvPow(sig, G, R(e.x), e.n))
FOne(e) == StoreF(e, MvOne(G))
FZero(e) == StoreF(e, MvZero)
FBasis(e) == StoreF(e, Mono(G, {e.n}, <<1, 0>>))
FEq(e) == Show("bool", R(e.x) = R(e.y))
FIsZero(e) == Show("bool", R(e.x) = MvZero)
\* the entries are bounded by the sum of the norms of the coefficients and not all smaller than the largest norm;
\* with 1-norms: decided when the sum is below the precision p/q or some part of a coefficient reaches it
FApprox(e) ==
  LET df == TLCEval(MvSub(G, R(e.x), R(e.y)))
      Ab(x) == IF x < 0 THEN -x ELSE x
      sum == FoldSet(LAMBDA b, acc : acc + Ab(df[b][1]) + Ab(df[b][2]), 0, DOMAIN df)
      \* a blade is represented by elements of modulus zero and one
      one == CHOOSE b \in DOMAIN df : TRUE
      m2 == (df[one][1] * df[one][1] + df[one][2] * df[one][2]) * e.q * e.q
  IN  IF sum * e.q < e.p THEN Show("bool", TRUE)
      ELSE IF Cardinality(DOMAIN df) = 1 /\ sum < 1000 /\ e.p < 10000 /\ e.q <= 20 /\ m2 # e.p * e.p
           THEN Show("bool", m2 < e.p * e.p)
      ELSE IF \E b \in DOMAIN df : Ab(df[b][1]) * e.q >= e.p \/ Ab(df[b][2]) * e.q >= e.p
           THEN Show("bool", FALSE)
      ELSE Show("none", 0)

(* Involutions, traces, blocks                                             *)
FRev(e) == StoreF(e, Rev(G, R(e.x)))
FFlip(e) == StoreF(e, Flip(G, R(e.x)))
FTrace(e) == Show("co", CMul(G, <<Side(sig), 0>>, ScalarPart(G, R(e.x))))
FNTrace(e) == Show("co", ScalarPart(G, R(e.x)))
FMag2(e) == Show("co", Mag2(sig, G, R(e.x)))
FHalf(e) == Show("arr", HalfSpin(Side(sig), RepArr(sig, R(e.x)), e.n))

(* Complexification: f registers hold multivectors of the algebra with the *)
(* same null generators and otherwise positive squares.                    *)
Cplx(e) == StoreF(e, Complexify(sig, ToG(ring, R(e.x))))
\* over the reals only values that come from real multivectors are converted back
Decplx(e) == Store(e, FromG(Decomplexify(sig, R(e.x))))
CMulA(e) == StoreF(e, GeoMul(CplxSig(sig), G, R(e.x), R(e.y)))
CRevA(e) == StoreF(e, Rev(G, R(e.x)))

(***************************************************************************)
(* Inverse.  The call record carries a witness that decides the outcome:   *)
(*   w = "unit": q and m with x q = q x = m, m a non-zero integer.  The    *)
(*       outcome is recorded as m times the result, so it must be q.       *)
(*   w = "dom": one coefficient outweighs all others together.  Blades are *)
(*       represented by unitary matrices, so x is a unit; the outcome is   *)
(*       recorded as the products of the result with x from both sides.    *)
(*   w = "zerodiv": a non-zero q with x q = 0; there is no inverse.        *)
(* Only the represented value counts, not its scale: e.s is an exponent    *)
(* of two by which the operand was multiplied.                             *)
(***************************************************************************)
Abs(x) == IF x < 0 THEN -x ELSE x
Dominated(f) ==
  LET sum == FoldSet(LAMBDA b, acc : acc + Abs(f[b][1]) + Abs(f[b][2]), 0, DOMAIN f)
  IN  \E b \in DOMAIN f : LET own == Abs(f[b][1]) + Abs(f[b][2])
                             top == IF Abs(f[b][1]) > Abs(f[b][2]) THEN Abs(f[b][1]) ELSE Abs(f[b][2])
                         IN  top > sum - own
FInv(e) ==
  LET q == TLCEval(MvOfList(G, e.q))
      x == R(e.x)
  IN  IF e.w = "unit"
      THEN IF e.m # 0 /\ GeoMul(sig, G, x, q) = Scal(G, <<e.m, 0>>) /\ GeoMul(sig, G, q, x) = Scal(G, <<e.m, 0>>)
           THEN Show("mv", q) ELSE Fail("bad witness")
      ELSE IF e.w = "zerodiv"
      THEN IF q # MvZero /\ GeoMul(sig, G, x, q) = MvZero
           THEN Fail("None") ELSE Fail("bad witness")
      ELSE IF Dominated(x) THEN Show("units", MvOne(G)) ELSE Fail("bad witness")

(* Eigenspaces of very different size: for u = B or i B with u u = 1 and   *)
(* s = 1 or -1, x = (2^r + 1) + s (2^r - 1) u is 2^(r+1) on one eigenspace *)
(* of u and 2 on the other, so 2 x^-1 is (1 - s u)/2 + 2^-r (1 + s u)/2.   *)
(* Recorded, to the nearest integer: 4 times the result (r >= 8), and, for *)
(* r <= 18, the products with x from both sides.  See law L12Pole.         *)
FInvPole(e) ==
  LET b == Bl(e.b)
      sq == (IF e.c = 1 THEN -1 ELSE 1) * GeoSign(sig, b, b)
      u == Mono(G, b, IF e.c = 1 THEN <<0, 1>> ELSE <<1, 0>>)
  IN  IF b # {} /\ sq = 1 /\ e.r >= 8 /\ e.e \in {1, -1}
      THEN Show("mvs", <<MvSub(G, MvOne(G), MvScaleR(G, u, <<e.e, 0>>))>> \o IF e.r <= 18 THEN <<MvOne(G), MvOne(G)>> ELSE <<>>)
      ELSE Fail("bad witness")

(* Graded matrices: for an even number of generators every matrix is a     *)
(* representation.  M has one element i^u 2^k in every row and column, at  *)
(* (r, p[r]), and t times row j is added to row i.  Elements are pairs     *)
(* <<u, k>>, so exponents may be far apart; no sum has more than one term  *)
(* that does not cancel.  The inverse is recorded element by element.      *)
PMulN(a, b) == <<(a[1] + b[1]) % 4, a[2] + b[2]>>
PInv(a) == <<(4 - a[1]) % 4, -a[2]>>
PNegN(a) == <<(a[1] + 2) % 4, a[2]>>
GradedMat(e) ==
  LET rows == {<<r - 1, e.p[r]>> : r \in 1 .. Len(e.p)}
      M == [k \in rows |-> e.m[k[1] + 1]]
  IN  M @@ <<e.i, e.p[e.j + 1]>> :> PMulN(e.t, e.m[e.j + 1])
GradedInv(e) ==
  LET rows == {<<e.p[r], r - 1>> : r \in 1 .. Len(e.p)}
      M == [k \in rows |-> PInv(e.m[k[2] + 1])]
  IN  M @@ <<e.p[e.i + 1], e.j>> :> PNegN(PMulN(PInv(e.m[e.i + 1]), e.t))
\* X Y is the unit matrix: what does not cancel in pairs is a one on the diagonal
Cancels(X, Y, n) ==
  LET T == {q \in (DOMAIN X) \X (DOMAIN Y) : q[1][2] = q[2][1]}
      V == TLCEval([q \in T |-> <<q[1][1], q[2][2], PMulN(X[q[1]], Y[q[2]])>>])
      \* terms at the same place with opposite values
      C == {q \in T : \E z \in T : z # q /\ V[z] = <<V[q][1], V[q][2], PNegN(V[q][3])>>}
  IN  /\ {V[q] : q \in T \ C} = {<<r, r, <<0, 0>>>> : r \in 0 .. (n - 1)}
      /\ Cardinality(T \ C) = n /\ Cardinality({V[q] : q \in C}) = Cardinality(C)
FInvGraded(e) ==
  LET n == Side(sig)
      X == TLCEval(GradedInv(e))
      A == TLCEval(GradedMat(e))
  IN  IF NonNull(sig) % 2 = 0 /\ Len(e.p) = n /\ e.i # e.j /\ Cancels(A, X, n) /\ Cancels(X, A, n)
      THEN Show("graded", X) ELSE Fail("bad witness")

(***************************************************************************)
(* The raw transform functions, independent of a declared algebra.         *)
(***************************************************************************)
PlusSig(n) == [i \in 1 .. n |-> 1]
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
IsPow2(n) == n >= 1 /\ 2 ^ Log2(n) = n
BladeOf(i, n) == {g \in 0 .. (n - 1) : Bit(i, g) = 1}
\* coefficients of Cl(n) in index order
MvOfSeq(l, n) == Canon(G, [b \in SUBSET (0 .. (n - 1)) |-> l[Bits(b) + 1]])
SeqOfMv(f, n) == [i \in 1 .. 2 ^ n |-> Coef(G, f, BladeOf(i - 1, n))]

Clifft(e) ==
  LET n == Len(e.l) IN
  IF IsPow2(n) THEN Show("arr", RepArr(PlusSig(Log2(n)), MvOfSeq(e.l, Log2(n)))) ELSE Fail("InvalidShape")
\* a matrix of side 2^k decodes to Cl(2k); entries are divisible by the side
Good(sh) == sh[1] = sh[2] /\ IsPow2(sh[1])
MatDim(sh) == 2 * Log2(sh[1])
MatMv(e) == UnRepScaled(PlusSig(MatDim(e.sh)), ArrOfList(e.a))     \* times the side
IClifft(e) ==
  IF Good(e.sh) THEN Show("seq", SeqOfMv(ArrDiv(MatMv(e), e.sh[1]), MatDim(e.sh))) ELSE Fail("InvalidShape")
\* e.n: length of the destination
IClifftInto(e) ==
  IF Good(e.sh) /\ e.n = e.sh[1] * e.sh[1]
  THEN Show("seq", SeqOfMv(ArrDiv(MatMv(e), e.sh[1]), MatDim(e.sh))) ELSE Fail("InvalidShape")
OddGens == {2 * i + 1 : i \in 0 .. 20}
MatAct(e, F(_)) ==
  IF Good(e.sh) THEN Show("arr", ArrDiv(RepArr(PlusSig(MatDim(e.sh)), F(MatMv(e))), e.sh[1])) ELSE Fail("InvalidShape")
ParityFlip(e) == MatAct(e, LAMBDA f : Flip(G, f))
ImaginaryFlip(e) == MatAct(e, LAMBDA f : FlipSub(G, f, OddGens))
Reversal(e) == MatAct(e, LAMBDA f : Rev(G, f))
\* real transform of a split signature
RealFft(e) == Show("arr", RepArr(sig, ToG(ring, R(e.x))))
=============================================================================
