------------------------------- MODULE Coeff -------------------------------
(***************************************************************************)
(* Coefficient rings over which multivectors are taken.                    *)
(*   "Z"  integers                                                         *)
(*   "G"  Gaussian integers           <<re, im>>                           *)
(*   "H"  integer quaternions         <<1, x, y, z>> over the basis        *)
(*        1, u, v, vu  with u^2 = v^2 = -1, uv = -vu (vu is the third unit) *)
(*   "M"  2x2 integer matrices        <<a, b, c, d>> = ((a b) (c d))       *)
(*   "R"  integers modulo 6           0..5   (zero divisors, commutative)  *)
(* H and M are not commutative, so the order of factors is observable.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Rings == {"Z", "G", "H", "M", "R"}

CZero(r) == CASE r = "Z" -> 0 [] r = "R" -> 0 [] r = "G" -> <<0, 0>> [] OTHER -> <<0, 0, 0, 0>>
COne(r)  == CASE r = "Z" -> 1 [] r = "R" -> 1 [] r = "G" -> <<1, 0>> [] r = "H" -> <<1, 0, 0, 0>>
              [] r = "M" -> <<1, 0, 0, 1>>

CAdd(r, x, y) ==
  IF r = "Z" THEN x + y
  ELSE IF r = "G" THEN <<x[1] + y[1], x[2] + y[2]>>
  ELSE IF r = "R" THEN (x + y) % 6
  ELSE <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>

CNeg(r, x) ==
  IF r = "Z" THEN -x
  ELSE IF r = "G" THEN <<-x[1], -x[2]>>
  ELSE IF r = "R" THEN (6 - x) % 6
  ELSE <<-x[1], -x[2], -x[3], -x[4]>>

CSub(r, x, y) == CAdd(r, x, CNeg(r, y))

CMul(r, x, y) ==
  IF r = "Z" THEN x * y
  ELSE IF r = "G" THEN <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
  ELSE IF r = "R" THEN (x * y) % 6
  ELSE IF r = "M" THEN <<x[1] * y[1] + x[2] * y[3], x[1] * y[2] + x[2] * y[4],
                         x[3] * y[1] + x[4] * y[3], x[3] * y[2] + x[4] * y[4]>>
  \* basis 1, u, v, w = vu:  uv = -w, vu = w, uw = v, wu = -v, vw = -u, wv = u, w^2 = -1
  ELSE <<x[1] * y[1] - x[2] * y[2] - x[3] * y[3] - x[4] * y[4],
         x[1] * y[2] + x[2] * y[1] - x[3] * y[4] + x[4] * y[3],
         x[1] * y[3] + x[3] * y[1] + x[2] * y[4] - x[4] * y[2],
         x[1] * y[4] + x[4] * y[1] - x[2] * y[3] + x[3] * y[2]>>

CSigned(r, s, x) == IF s = 1 THEN x ELSE IF s = -1 THEN CNeg(r, x) ELSE CZero(r)

CIsZero(r, x) ==
  IF r = "Z" \/ r = "R" THEN x = 0
  ELSE IF r = "G" THEN x[1] = 0 /\ x[2] = 0
  ELSE x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] = 0

\* complex conjugation (identity on real coefficients)
CConj(r, x) == IF r = "G" THEN <<x[1], -x[2]>> ELSE x

\* quotient of x by a divisor y of it (commutative rings without zero divisors)
CDivExact(r, x, y) ==
  IF r = "Z" THEN (IF y > 0 THEN x \div y ELSE (-x) \div (-y))
  ELSE LET n == CMul("G", x, CConj("G", y)) m == y[1] * y[1] + y[2] * y[2]
       IN  <<n[1] \div m, n[2] \div m>>

\* i^k as a Gaussian integer
IPow(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>>
             [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>

\* embedding of an integer
CInt(r, n) == CASE r = "Z" -> n [] r = "R" -> n % 6 [] r = "G" -> <<n, 0>>
                [] r = "H" -> <<n, 0, 0, 0>> [] OTHER -> <<n, 0, 0, n>>
=============================================================================
