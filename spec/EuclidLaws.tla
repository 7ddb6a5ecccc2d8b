----------------------------- MODULE EuclidLaws -----------------------------
(***************************************************************************)
(* The definitions of Euclid agree with elementary geometry: checked for   *)
(* all points, directions and hyperplanes with small integer coordinates.  *)
(***************************************************************************)
EXTENDS Euclid

CONSTANTS SpaceDims, Size
VARIABLES x, y, z, a, b
evars == <<vars, x, y, z, a, b>>

Grid(n) == [1 .. n -> -Size .. Size]
Sg(n) == [i \in 1 .. n + 1 |-> IF i = n + 1 THEN 0 ELSE 1]
Zeros(n) == [i \in 1 .. n |-> 0]

Base(n) == Init0(Sg(n), "Z")
\* two points and a hyperplane
InitPPH == \E n \in SpaceDims : /\ Base(n) /\ x \in Grid(n) /\ y \in Grid(n) /\ z = Zeros(n)
                                /\ a \in Grid(n + 1) /\ b = Zeros(n + 1)
\* three points
InitPPP == \E n \in SpaceDims : /\ Base(n) /\ x \in Grid(n) /\ y \in Grid(n) /\ z \in Grid(n)
                                /\ a = Zeros(n + 1) /\ b = Zeros(n + 1)
\* two hyperplanes and a point
InitHHP == \E n \in SpaceDims : /\ Base(n) /\ x \in Grid(n) /\ y = Zeros(n) /\ z = Zeros(n)
                                /\ a \in Grid(n + 1) /\ b \in Grid(n + 1)
SpecPPH == InitPPH /\ [][FALSE]_evars
SpecPPP == InitPPP /\ [][FALSE]_evars
SpecHHP == InitHHP /\ [][FALSE]_evars

n == SpaceDim
SumTo(F(_), m) == FoldSet(LAMBDA i, s : s + F(i), 0, 1 .. m)
Eval(h, p) == SumTo(LAMBDA i : h[i] * p[i], n) + h[n + 1]
Plus(p, q) == [i \in 1 .. n |-> p[i] + q[i]]
Pt(p) == PointOf(p, 1)

LPga == IsPga
LPoint == /\ Pt(x) # MvZero /\ Place(Pt(x)) = Append(x, 1)
          /\ Place(MvScaleR("Z", Pt(x), -3)) = Append(x, 1)
LIncident == (Wedge(sig, "Z", PlaneOf(a), Pt(x)) = MvZero) <=> Eval(a, x) = 0
LTrans == SameLine(Sandwich(TransOf(y, 1), Pt(x)), Pt(Plus(x, y)))
\* a hyperplane moves with its points: the equation a.(p - y) + a_n = 0
LTransPlane == LET m == [i \in 1 .. n + 1 |-> IF i <= n THEN a[i] ELSE a[n + 1] - SumTo(LAMBDA j : a[j] * y[j], n)]
               IN  SameLine(Sandwich(TransOf(y, 1), PlaneOf(a)), PlaneOf(m))
LTransComp == SameLine(GeoMul(sig, "Z", TransOf(x, 1), TransOf(y, 1)), TransOf(Plus(x, y), 1))
\* the flat through two points; a third one is on it iff the three are collinear
Collinear(p, q, r) == \A i, j \in 1 .. n : (q[i] - p[i]) * (r[j] - p[j]) = (q[j] - p[j]) * (r[i] - p[i])
Join2 == Meet(sig, "Z", Pt(x), Pt(y))
LJoin == /\ Join2 = MvZero <=> x = y
         /\ (Meet(sig, "Z", Join2, Pt(z)) = MvZero) <=> Collinear(x, y, z)
\* the plane through three points of space contains exactly the points of the affine hull of the three
LJoin3 == n = 3 => LET h == Meet(sig, "Z", Join2, Pt(z)) IN
          h # MvZero => \A p \in {x, y, z} : Wedge(sig, "Z", h, Pt(p)) = MvZero
\* the common point of two lines in the plane
Both == Wedge(sig, "Z", PlaneOf(a), PlaneOf(b))
LCommon == n = 2 /\ a[1] * b[2] # a[2] * b[1] =>
           LET p == Place(Both) IN
           /\ a[1] * p[1] + a[2] * p[2] + a[3] * p[3] = 0
           /\ b[1] * p[1] + b[2] * p[2] + b[3] * p[3] = 0
           /\ (Eval(a, x) = 0 /\ Eval(b, x) = 0) <=> p = Append(x, 1)
\* two independent hyperplanes: their intersection joined with a point vanishes iff the point is on both
LLine == Both # MvZero => ((Eval(a, x) = 0 /\ Eval(b, x) = 0) <=> Meet(sig, "Z", Both, Pt(x)) = MvZero)
=============================================================================
