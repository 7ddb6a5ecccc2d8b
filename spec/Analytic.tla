------------------------------ MODULE Analytic ------------------------------
(***************************************************************************)
(* Exponentials.  Operands are chosen so that the exponential is rational: *)
(* a term is k u with u = B or i B for a basis blade B, in units of        *)
(*   pi/2 if u^2 = -1:  exp(k pi/2 u) = 1, u, -1, -u for k = 0..3 mod 4    *)
(*   ln 2 if u^2 = +1:  exp(k ln2 u) = (2^k + 2^-k)/2 + u (2^k - 2^-k)/2   *)
(*   1    if u^2 = 0:   exp(k u) = 1 + k u                                 *)
(* Terms commute, so the exponential of the sum is the product.  Both      *)
(* sides may be conjugated with a unit V (V q = q V = m).                  *)
(***************************************************************************)
EXTENDS Transform

TBlade(t) == Bl(t[1])
TSq(t) == (IF t[2] = 1 THEN -1 ELSE 1) * GeoSign(sig, TBlade(t), TBlade(t))
TUnit(t) == Mono(G, TBlade(t), IF t[2] = 1 THEN <<0, 1>> ELSE <<1, 0>>)
Commute(a, b) == GeoSign(sig, a, b) = GeoSign(sig, b, a)

\* exponential of a term times 2^TDen
TDen(t) == IF TSq(t) = 1 THEN Abs(t[3]) + 1 ELSE 0
TExp(t) ==
  LET s == TSq(t) k == t[3] u == TUnit(t) one == MvOne(G) IN
  IF s = 0 THEN MvAdd(G, one, MvScaleR(G, u, <<k, 0>>))
  ELSE IF s = -1 THEN (CASE k % 4 = 0 -> one [] k % 4 = 1 -> u [] k % 4 = 2 -> MvNeg(G, one) [] k % 4 = 3 -> MvNeg(G, u))
  ELSE LET p == 4 ^ Abs(k)
       IN  MvAdd(G, MvScaleR(G, one, <<p + 1, 0>>), MvScaleR(G, u, <<IF k < 0 THEN 1 - p ELSE p - 1, 0>>))
RECURSIVE TProd(_, _)
TProd(ts, i) == IF i = 0 THEN MvOne(G) ELSE GeoMul(sig, G, TProd(ts, i - 1), TExp(ts[i]))
RECURSIVE TDens(_, _)
TDens(ts, i) == IF i = 0 THEN 0 ELSE TDens(ts, i - 1) + TDen(ts[i])
TSum(ts, s) == FoldSet(LAMBDA i, acc : IF TSq(ts[i]) = s THEN MvAdd(G, acc, MvScaleR(G, TUnit(ts[i]), <<ts[i][3], 0>>)) ELSE acc,
                       MvZero, 1 .. Len(ts))
Conjug(v, q, f) == GeoMul(sig, G, GeoMul(sig, G, v, f), q)

(* The operand is (pi/2 e.p + ln2 e.h + e.z) / m; the outcome is recorded  *)
(* as 2^e.den m times the result.                                          *)
ExpA(e) ==
  LET v == TLCEval(MvOfList(G, e.cv))
      q == TLCEval(MvOfList(G, e.q))
      ts == e.t
      ok == /\ \A i, j \in 1 .. Len(ts) : Commute(TBlade(ts[i]), TBlade(ts[j]))
            /\ e.m # 0 /\ GeoMul(sig, G, v, q) = Scal(G, <<e.m, 0>>) /\ GeoMul(sig, G, q, v) = Scal(G, <<e.m, 0>>)
            /\ e.den = TDens(ts, Len(ts))
            /\ MvOfList(G, e.p) = Conjug(v, q, TSum(ts, -1))
            /\ MvOfList(G, e.h) = Conjug(v, q, TSum(ts, 1))
            /\ MvOfList(G, e.z) = Conjug(v, q, TSum(ts, 0))
  IN  IF ok THEN Show("mv", Conjug(v, q, TProd(ts, Len(ts)))) ELSE Fail("bad witness")

(* Laws that determine the exponential, for any operand x/n:               *)
(*   "inv":   exp(a) exp(-a) and exp(-a) exp(a), rounded                   *)
(*   "double": exp(2a) - exp(a)^2 relative to its size, rounded            *)
(*   "deriv": n (exp(t a) - exp(-t a)) / (2 t) for small t, rounded        *)
ExpLaw(e) ==
  CASE e.w = "inv" -> Show("units", MvOne(ring))
    [] e.w = "double" -> Show("mv", MvZero)
    [] e.w = "deriv" -> Show("mv", R(e.x))

=============================================================================
