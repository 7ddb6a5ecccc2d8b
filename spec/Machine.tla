------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The library as a register machine.  A session works in one algebra      *)
(* (signature `sig') over one coefficient ring (`ring'); registers hold    *)
(* multivectors.  Every action is one call of the public interface: it     *)
(* takes a call record `e', produces the observable outcome `out' and      *)
(* may store the resulting value in register e.d.                          *)
(*                                                                         *)
(* Outcomes are records [k, t, v]: k = "ok" or the name of the error, t is *)
(* the type of the value (how it is compared with a recorded one).         *)
(***************************************************************************)
EXTENDS Rep, TLC

VARIABLES sig, ring, regs, out

vars == <<sig, ring, regs, out>>

RegNames == {"r0", "r1", "r2", "r3"}
FRegNames == {"f0", "f1", "f2", "f3"}      \* registers of the matrix representation, always over "G"
AllRegs == RegNames \cup FRegNames

Ok(t, v) == [k |-> "ok", t |-> t, v |-> v]
Err(name) == [k |-> name, t |-> "none", v |-> 0]

R(n) == regs[n]

\* blades and entry lists as they occur in call records
Bl(s) == {s[i] : i \in 1 .. Len(s)}
InRange(b) == b \subseteq Gens(sig)

\* multivector given by a list of <<blade, coefficient>>: later entries win
MvOfList(r, l) ==
  LET bs == TLCEval([i \in 1 .. Len(l) |-> Bl(l[i][1])])
      D == {bs[i] : i \in 1 .. Len(l)}
  IN  Canon(r, [b \in D |-> l[Max({i \in 1 .. Len(l) : bs[i] = b})][2]])

Keep == UNCHANGED <<sig, ring>>
Store(e, v) == /\ out' = Ok("mv", v) /\ regs' = [regs EXCEPT ![e.d] = v] /\ Keep
Show(t, v)  == /\ out' = Ok(t, v) /\ UNCHANGED regs /\ Keep
Fail(name)  == /\ out' = Err(name) /\ UNCHANGED regs /\ Keep

Init0(s, r) == /\ sig = s /\ ring = r
               /\ regs = [n \in AllRegs |-> MvZero]
               /\ out = Ok("none", 0)

----------------------------------------------------------------------------
(* Starting a session (a new algebra)                                      *)
Begin(e) == /\ sig' = e.sig /\ ring' = e.ring
            /\ regs' = [n \in AllRegs |-> MvZero]
            /\ out' = Ok("none", 0)

(* Construction and access                                                 *)
FromIdx(e) ==
  IF \A i \in 1 .. Len(e.l) : InRange(Bl(e.l[i][1]))
  THEN Store(e, MvOfList(ring, e.l))
  ELSE Fail("IndexOutOfBounds")
\* a term for every combination of the generators e.f joined to the blade e.b, numbered in the order of e.f
PatCoef(i, k) == LET c(j) == (j % k[3]) - k[4] IN
                 IF ring = "G" THEN <<c(i * k[1] + k[2]), c(i * k[1] + k[2] + i \div 2)>> ELSE c(i * k[1] + k[2])
Pattern(e) ==
  LET F == Bl(e.f)
      o == Bl(e.b)
      w == [g \in F |-> 2 ^ ((CHOOSE i \in 1 .. Len(e.f) : e.f[i] = g) - 1)]
      No(b) == FoldFunctionOnSet(+, 0, w, b \ o)
  IN  Store(e, Canon(ring, [b \in {s \cup o : s \in SUBSET F} |-> PatCoef(No(b), e.ks)]))
FromVec(e) ==
  IF Len(e.l) = Dim(sig)
  THEN Store(e, Canon(ring, [b \in {{g} : g \in Gens(sig)} |-> e.l[Max(b) + 1]]))
  ELSE Fail("InvalidShape")
FromScalar(e) == Store(e, Scal(ring, e.c))
ZeroC(e) == Store(e, MvZero)
OneC(e) == Store(e, MvOne(ring))
Get(e) == Show("co", Coef(ring, R(e.x), Bl(e.b)))
Set(e) == Store(e, IF InRange(Bl(e.b))
                   THEN Canon(ring, [b \in DOMAIN R(e.x) \cup {Bl(e.b)} |->
                                       IF b = Bl(e.b) THEN e.c ELSE R(e.x)[b]])
                   ELSE R(e.x))
Peek(e) == Show("mv", R(e.x))
GPeek(e) == Show("mv", GradePart(R(e.x), Bl(e.ks)))
VecPart(e) == Show("seq", [i \in 1 .. Dim(sig) |-> Coef(ring, R(e.x), {i - 1})])
Count(e) == Show("int", Cardinality(DOMAIN R(e.x)))
ArrayView(e) == Show("seq", [i \in 1 .. 2 ^ Dim(sig) |->
                   Coef(ring, R(e.x), {g \in Gens(sig) : Bit(i - 1, g) = 1})])
Convert(e) == Store(e, R(e.x))

(* Module structure                                                        *)
Add(e) == Store(e, MvAdd(ring, R(e.x), R(e.y)))
Sub(e) == Store(e, MvSub(ring, R(e.x), R(e.y)))
Neg(e) == Store(e, MvNeg(ring, R(e.x)))
Scale(e) == Store(e, MvScaleR(ring, R(e.x), e.c))
\* division by a scalar that divides every coefficient
SDiv(e) == Store(e, MvMap(R(e.x), LAMBDA b, c : CDivExact(ring, c, e.c)))
Equal(e) == Show("bool", R(e.x) = R(e.y))
IsZero(e) == Show("bool", R(e.x) = MvZero)
\* every coefficient of the difference is smaller than p/q
Approx(e) ==
  LET df == MvSub(ring, R(e.x), R(e.y))
      \* at precision zero equal values may count as close or not
  IN  IF e.p <= 0 /\ df = MvZero THEN Show("none", 0) ELSE
      Show("bool", \A b \in DOMAIN df :
             IF ring = "G" THEN (df[b][1] * df[b][1] + df[b][2] * df[b][2]) * e.q * e.q < e.p * e.p
             ELSE (IF df[b] < 0 THEN -df[b] ELSE df[b]) * e.q < e.p)

(* Products                                                                *)
Mul(e) == Store(e, GeoMul(sig, ring, R(e.x), R(e.y)))
WedgeA(e) == Store(e, Wedge(sig, ring, R(e.x), R(e.y)))
MeetA(e) == Store(e, Meet(sig, ring, R(e.x), R(e.y)))
Pow(e) == Store(e, MvPow(sig, ring, R(e.x), e.n))
PowBits(e) == Store(e, MvPowBits(sig, ring, R(e.x), e.n))
PowMod(e) == Store(e, MvPowMod(sig, R(e.x), e.n, e.m))

(* Involutions and duals                                                   *)
RevA(e) == Store(e, Rev(ring, R(e.x)))
FlipA(e) == Store(e, Flip(ring, R(e.x)))
FlipSubA(e) == Store(e, FlipSub(ring, R(e.x), Bl(e.b)))
RevCA(e) == Store(e, RevC(ring, R(e.x)))
DualA(e) == Store(e, Dual(sig, ring, R(e.x)))
UndualA(e) == Store(e, Undual(sig, ring, R(e.x)))

(* Scalar valued forms                                                     *)
VDotA(e) == Show("co", VDot(sig, ring, R(e.x), R(e.y)))
VsDotA(e) == Show("co", VsDot(ring, R(e.x), R(e.y)))
Mag2A(e) == Show("co", Mag2(sig, ring, R(e.x)))
CMag2A(e) == Show("co", CMag2(sig, ring, R(e.x)))
\* reversal over squared magnitude: pair of the divisor and the quotient times the divisor
Ratio(m, f) == Show("ratio", IF CIsZero(ring, m) THEN <<m, MvZero>> ELSE <<m, f>>)
RevM(e) == Ratio(Mag2(sig, ring, R(e.x)), Rev(ring, R(e.x)))
RevCM(e) == Ratio(CMag2(sig, ring, R(e.x)), RevC(ring, R(e.x)))

(* Division algebras: <<-1>> and <<-1, -1>>.  b conj(b) is a scalar m, so   *)
(* a/b = a conj(b) / m; recorded as m and m (a/b).                          *)
ConjOf(f) == Flip(ring, Rev(ring, f))
IsDivAlg == sig = <<-1>> \/ sig = <<-1, -1>>
NormOf(f) == ScalarPart(ring, GeoMul(sig, ring, f, ConjOf(f)))
Conj(e) == Store(e, ConjOf(R(e.x)))
DivA(e) == LET m == NormOf(R(e.y)) IN
           IF IsDivAlg /\ ~CIsZero(ring, m) THEN Show("ratio", <<m, GeoMul(sig, ring, R(e.x), ConjOf(R(e.y)))>>)
           ELSE Fail("undefined")
\* the quotient has whole coefficients
DivX(e) == LET m == NormOf(R(e.y)) IN
           IF IsDivAlg /\ ~CIsZero(ring, m)
           THEN Store(e, MvMap(GeoMul(sig, ring, R(e.x), ConjOf(R(e.y))), LAMBDA b, c : CDivExact(ring, c, m)))
           ELSE Fail("undefined")
\* square of the Euclidean length
Norm2(e) == Show("int", LET f == R(e.x) IN
              FoldFunctionOnSet(+, 0, [b \in DOMAIN f |-> IF ring = "G" THEN f[b][1] * f[b][1] + f[b][2] * f[b][2] ELSE f[b] * f[b]], DOMAIN f))
\* the imaginary units
QUnit(e) == Store(e, CASE e.n = 1 -> Mono(ring, {0}, COne(ring))
                       [] e.n = 2 -> Mono(ring, {1}, COne(ring))
                       [] e.n = 3 -> MvNeg(ring, Mono(ring, {0, 1}, COne(ring))))

(* Grades and filters                                                      *)
Grade(e) == Store(e, GradePart(R(e.x), Bl(e.ks)))
\* keep the coefficients whose blade contains all of e.b and whose integer coefficient is above e.n
Filter(e) == LET f == R(e.x) IN
             Store(e, [b \in {y \in DOMAIN f : Bl(e.b) \subseteq y /\ f[y] > e.n} |-> f[b]])
\* e.c is subtracted from the coefficients whose blade contains all of e.b
Edit(e) == LET f == R(e.x) IN
           Store(e, Canon(ring, [b \in DOMAIN f |-> IF Bl(e.b) \subseteq b THEN CSub(ring, f[b], e.c) ELSE f[b]]))

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1
               ELSE (Binom(n - 1, k - 1) * n) \div k
\* the iterator yields every blade of grade k once: the right number of distinct blades of that grade
GradeIdx(e) == Show("kblades", [n |-> e.n, count |-> Binom(Dim(sig), e.n)])
\* the first few items only (the whole sequence is too long): distinct blades of the right grade
GradeHead(e) == Show("kblades", [n |-> e.n, count |-> -1])
\* e.n items, fewer than 2^30 of them
AllIdx(e) == Show("blades", [i \in 1 .. e.n |-> {g \in Gens(sig) : g < 30 /\ Bit(i - 1, g) = 1}])

(* Signs of products of basis blades                                       *)
SignRow(e) ==
  LET a == Bl(e.a)
  IN  Show("seq", [i \in 1 .. Len(e.l) |->
        LET b == Bl(e.l[i]) ac == AcSign(a, b)
        IN  <<ac, -ac, WedgeSign(a, b), GeoSign(sig, a, b)>>])
=============================================================================
