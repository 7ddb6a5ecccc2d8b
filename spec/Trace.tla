------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions: every line of the trace file is one  *)
(* call on the real library with its outcome; the line must be explained   *)
(* by the corresponding action of the specification.                       *)
(***************************************************************************)
EXTENDS Analytic, Euclid, Declare, Json, IOUtils

TraceFile == IOEnv.TRACE
Tr == ndJsonDeserialize(TraceFile)

VARIABLE l

\* a recorded list of <<blade, coefficient>> and a multivector
SameMv(v, w) ==
  LET n == Len(v)
      D == DOMAIN w
      bs == TLCEval([i \in 1 .. n |-> Bl(v[i][1])])
  IN  /\ n = Cardinality(D)
      /\ {bs[i] : i \in 1 .. n} = D
      /\ \A i \in 1 .. n : w[bs[i]] = v[i][2]

SameArr(v, w) ==
  LET n == Len(v)
      D == DOMAIN w
      ks == TLCEval([i \in 1 .. n |-> <<v[i][1], v[i][2], v[i][3]>>])
  IN  /\ n = Cardinality(D)
      /\ {ks[i] : i \in 1 .. n} = D
      /\ \A i \in 1 .. n : w[ks[i]] = <<v[i][4], v[i][5]>>

\* distinct blades of grade w.n; w.count of them unless that is negative
SameBlades(v, w) ==
  LET bs == TLCEval([i \in 1 .. Len(v) |-> Bl(v[i])])
  IN  /\ w.count >= 0 => Len(v) = w.count
      /\ Cardinality({bs[i] : i \in 1 .. Len(v)}) = Len(v)
      /\ \A i \in 1 .. Len(v) : InRange(bs[i]) /\ Cardinality(bs[i]) = w.n

Same(e) ==
  /\ e.k = out'.k
  /\ e.k = "ok" =>
       LET t == out'.t w == out'.v IN
       CASE t = "none" -> TRUE
         [] t = "mv" -> SameMv(e.v, w)
         [] t = "ratio" -> e.v[1] = w[1] /\ SameMv(e.v[2], w[2])
         [] t = "mvs" -> Len(e.v) = Len(w) /\ \A i \in 1 .. Len(w) : SameMv(e.v[i], w[i])
         [] t = "graded" -> /\ Len(e.v) = Cardinality(DOMAIN w)
                            /\ \A i \in 1 .. Len(e.v) : LET k == <<e.v[i][1], e.v[i][2]>> IN
                                 k \in DOMAIN w /\ w[k] = <<e.v[i][3], e.v[i][4]>>
         [] t = "units" -> SameMv(e.v[1], w) /\ SameMv(e.v[2], w)
         [] t = "proj" -> LET f == MvOfList("Z", e.v) IN Len(e.v) = Cardinality(DOMAIN f) /\ SameLine(f, w)
         [] t = "ray" -> LET f == MvOfList("Z", e.v) IN Len(e.v) = Cardinality(DOMAIN f) /\ Prim(f) = Prim(w)
         [] t = "oneof" -> e.v \in w
         [] t = "facts" -> /\ e.v.dims = w.dims /\ e.v.sig = w.sig /\ e.v.sigf = w.sig /\ e.v.names = w.names /\ e.v.traits = w.traits
                           /\ Bl(e.v.plus) = w.plus /\ Bl(e.v.minus) = w.minus /\ Bl(e.v.null) = w.null /\ Bl(e.v.pga) = w.pga
         [] t = "calg" -> /\ e.v.dims = w.dims /\ e.v.names = w.names /\ e.v.labels = w.labels /\ e.v.signs = w.signs
                          /\ Bl(e.v.plus) = w.plus /\ Bl(e.v.minus) = w.minus /\ Bl(e.v.null) = w.null
         [] t = "arr" -> SameArr(e.v, w)
         [] t = "kblades" -> SameBlades(e.v, w)
         [] t = "blades" -> /\ Len(e.v) = Len(w) /\ \A i \in 1 .. Len(w) : Bl(e.v[i]) = w[i]
         [] t = "set" -> Bl(e.v) = w /\ Len(e.v) = Cardinality(w)
         [] OTHER -> e.v = w

Do(e) ==
  LET o == e.op IN
  CASE o = "begin" -> Begin(e)
    [] o = "fromidx" -> FromIdx(e)
    [] o = "pattern" -> Pattern(e)
    [] o = "peek" -> Peek(e)
    [] o = "mul" \/ o = "nmul" -> Mul(e)
    [] o = "wedge" \/ o = "nwedge" -> WedgeA(e)
    [] o = "meet" \/ o = "nmeet" -> MeetA(e)
    [] o = "add" -> Add(e)
    [] o = "sub" -> Sub(e)
    [] o = "neg" -> Neg(e)
    [] o = "scale" -> Scale(e)
    [] o = "sdiv" -> SDiv(e)
    [] o = "rev" -> RevA(e)
    [] o = "flip" -> FlipA(e)
    [] o = "flipsub" -> FlipSubA(e)
    [] o = "revc" -> RevCA(e)
    [] o = "dual" -> DualA(e)
    [] o = "undual" -> UndualA(e)
    [] o = "get" -> Get(e)
    [] o = "set" -> Set(e)
    [] o = "eq" -> Equal(e)
    [] o = "iszero" -> IsZero(e)
    [] o = "approx" -> Approx(e)
    [] o = "vdot" -> VDotA(e)
    [] o = "vsdot" -> VsDotA(e)
    [] o = "mag2" -> Mag2A(e)
    [] o = "cmag2" -> CMag2A(e)
    [] o = "revm" -> RevM(e)
    [] o = "revcm" -> RevCM(e)
    [] o = "pow" -> Pow(e)
    [] o = "powbits" -> PowBits(e)
    [] o = "powmod" -> PowMod(e)
    [] o = "grade" -> Grade(e)
    [] o = "filter" -> Filter(e)
    [] o = "edit" -> Edit(e)
    [] o = "gpeek" -> GPeek(e)
    [] o = "vecpart" -> VecPart(e)
    [] o = "count" -> Count(e)
    [] o = "arrayview" -> ArrayView(e)
    [] o = "convert" -> Convert(e)
    [] o = "zero" -> ZeroC(e)
    [] o = "one" -> OneC(e)
    [] o = "fromscalar" -> FromScalar(e)
    [] o = "fromvec" -> FromVec(e)
    [] o = "gradeidx" -> GradeIdx(e)
    [] o = "gradehead" -> GradeHead(e)
    [] o = "allidx" -> AllIdx(e)
    [] o = "signrow" -> SignRow(e)
    [] o = "fft" -> Fft(e)
    [] o = "ifft" -> IFft(e)
    [] o = "fview" -> FView(e)
    [] o = "fshape" -> FShape(e)
    [] o = "fround" -> FRound(e)
    [] o = "fromarr" -> FromArr(e)
    [] o = "fadd" -> FAdd(e)
    [] o = "fsub" -> FSub(e)
    [] o = "fneg" -> FNeg(e)
    [] o = "fmul" -> FMul(e)
    [] o = "fscale" -> FScale(e)
    [] o = "fsdiv" -> FSDiv(e)
    [] o = "fpow" -> FPow(e)
    [] o = "fone" -> FOne(e)
    [] o = "fzero" -> FZero(e)
    [] o = "fbasis" -> FBasis(e)
    [] o = "feq" -> FEq(e)
    [] o = "fiszero" -> FIsZero(e)
    [] o = "fapprox" -> FApprox(e)
    [] o = "frev" -> FRev(e)
    [] o = "fflip" -> FFlip(e)
    [] o = "ftrace" -> FTrace(e)
    [] o = "fntrace" -> FNTrace(e)
    [] o = "fmag2" -> FMag2(e)
    [] o = "fhalf" -> FHalf(e)
    [] o = "finv" -> FInv(e)
    [] o = "finvpole" -> FInvPole(e)
    [] o = "finvgraded" -> FInvGraded(e)
    [] o = "clifft" -> Clifft(e)
    [] o = "iclifft" -> IClifft(e)
    [] o = "iclifftinto" -> IClifftInto(e)
    [] o = "parityflip" -> ParityFlip(e)
    [] o = "imaginaryflip" -> ImaginaryFlip(e)
    [] o = "reversal" -> Reversal(e)
    [] o = "realfft" -> RealFft(e)
    [] o = "cplx" -> Cplx(e)
    [] o = "calg" -> CplxAlg(e)
    [] o = "decplx" -> Decplx(e)
    [] o = "cmul" -> CMulA(e)
    [] o = "crev" -> CRevA(e)
    [] o = "conj" -> Conj(e)
    [] o = "div" -> DivA(e)
    [] o = "divx" -> DivX(e)
    [] o = "norm2" -> Norm2(e)
    [] o = "qunit" -> QUnit(e)
    [] o = "exp" -> ExpA(e)
    [] o = "explaw" -> ExpLaw(e)
    [] o = "ppoint" -> PPoint(e)
    [] o = "pplane" -> PPlane(e)
    [] o = "ptrans" -> PTrans(e)
    [] o = "pload" -> PLoad(e)
    [] o = "pmul" -> PMul(e)
    [] o = "pwedge" -> PWedge(e)
    [] o = "pmeet" -> PMeet(e)
    [] o = "pmove" -> PMove(e)
    [] o = "pextract" -> PExtract(e)
    [] o = "pfar" -> PFar(e)
    [] o = "fmt" -> Fmt(e)
    [] o = "labels" -> Labels(e)
    [] o = "declare" -> DeclareA(e)
    [] o = "combine" -> Combine(e)
    [] o = "needs" -> Needs(e)
    [] o = "facts" -> Facts(e)
    [] o = "basis" -> BasisA(e)
    [] o = "label" -> LabelA(e)

TraceInit == l = 1 /\ Init0(<<1>>, "Z")
TraceNext == /\ l <= Len(Tr)
             /\ l' = l + 1
             /\ Do(Tr[l])
             /\ Same(Tr[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

\* the state always holds well-formed multivectors
TypeOK == /\ \A n \in RegNames : IsMv(sig, ring, regs[n])
          /\ \A n \in FRegNames : IsMv(sig, "G", regs[n])

Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN  /\ PrintT(<<"TRACE", d, Len(Tr)>>)
      /\ d = Len(Tr)
=============================================================================
