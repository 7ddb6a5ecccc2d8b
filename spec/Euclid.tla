------------------------------ MODULE Euclid --------------------------------
(***************************************************************************)
(* Projective geometry.  The signature is n times 1 followed by one 0;     *)
(* e = generator n.  A hyperplane a.x + a_n = 0 is the vector a, a point x *)
(* the dual of the vector (x, 1).  Only the line spanned by a multivector  *)
(* has a meaning, so registers hold the primitive integer representative   *)
(* of a class of proportional multivectors, and outcomes of type "proj"    *)
(* are compared up to a non-zero factor ("ray": up to a positive one).     *)
(***************************************************************************)
EXTENDS Machine

SpaceDim == Dim(sig) - 1
IsPga == Dim(sig) >= 2 /\ \A i \in 1 .. Dim(sig) : sig[i] = IF i = Dim(sig) THEN 0 ELSE 1

Absol(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
GcdOf(f) == FoldFunctionOnSet(LAMBDA p, q : Gcd(Absol(p), Absol(q)), 0, f, DOMAIN f)
Quot(x, g) == IF x < 0 THEN -((-x) \div g) ELSE x \div g
Prim(f) == IF DOMAIN f = {} THEN f ELSE LET g == GcdOf(f) IN [b \in DOMAIN f |-> Quot(f[b], g)]
SameLine(f, g) == Prim(f) = Prim(g) \/ Prim(f) = MvNeg("Z", Prim(g))

\* homogeneous vector
HVec(l) == Canon("Z", [b \in {{g} : g \in Gens(sig)} |-> l[Max(b) + 1]])
PointOf(x, q) == Dual(sig, "Z", HVec(Append(x, q)))        \* the point x/q
PlaneOf(a) == HVec(a)
\* 1 + e d/2 (times 2q)
TransOf(d, q) == LET n == SpaceDim IN
  Canon("Z", [b \in {{}} \cup {{n, i} : i \in 0 .. n - 1} |-> IF b = {} THEN 2 * q ELSE d[Min(b) + 1]])
Sandwich(t, f) == GeoMul(sig, "Z", GeoMul(sig, "Z", Rev("Z", t), f), t)
\* homogeneous coordinates of a point, weight last
HCoord(f) == LET d == Dual(sig, "Z", f) IN [i \in 1 .. Dim(sig) |-> Coef("Z", d, {i - 1})]
\* coordinates as a primitive integer vector over a positive denominator
Place(f) == LET h == HCoord(f) n == Dim(sig) g == GcdOf(h) s == IF h[n] < 0 THEN -1 ELSE 1
            IN  [i \in 1 .. n |-> s * Quot(h[i], g)]

Line(e, t, v) == /\ out' = Ok(t, v) /\ regs' = [regs EXCEPT ![e.d] = Prim(v)] /\ Keep

PPoint(e) == IF Len(e.c) = SpaceDim THEN Line(e, "proj", PointOf(e.c, e.q)) ELSE Fail("InvalidShape")
PPlane(e) == IF Len(e.c) = Dim(sig) THEN Line(e, "ray", PlaneOf(e.c)) ELSE Fail("InvalidShape")
PTrans(e) == IF Len(e.c) = SpaceDim THEN Line(e, "proj", TransOf(e.c, e.q)) ELSE Fail("InvalidShape")
PLoad(e) == Line(e, "proj", MvOfList("Z", e.l))
PMul(e) == Line(e, "proj", GeoMul(sig, "Z", R(e.x), R(e.y)))
PWedge(e) == Line(e, "proj", Wedge(sig, "Z", R(e.x), R(e.y)))
PMeet(e) == Line(e, "proj", Meet(sig, "Z", R(e.x), R(e.y)))
PMove(e) == Line(e, "proj", Sandwich(R(e.x), R(e.y)))
\* a point made and read back in a unit of length of any size
PFar(e) == Show("seq", Place(PointOf(e.c, e.q)))
PExtract(e) == IF HCoord(R(e.x))[Dim(sig)] # 0 THEN Show("seq", Place(R(e.x))) ELSE Fail("undefined")
=============================================================================
