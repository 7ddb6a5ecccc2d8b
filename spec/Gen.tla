-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of the register machine for replay into the implementation.  *)
(* Run in simulation mode: every behaviour of Depth calls is printed as a  *)
(* JSON array of call records (the first one names algebra and ring).      *)
(***************************************************************************)
EXTENDS Machine, Json, Randomization

CONSTANTS Ops,      \* names of the calls that may occur
          GenRings, \* coefficient rings
          MaxDim,   \* dimensions 1..MaxDim
          Family,   \* "all" algebras or only the "quaternion" algebra
          Depth,    \* calls per behaviour
          Limit     \* bound on coefficients (32 bit arithmetic)

VARIABLE cmds

Sigs == IF Family = "quaternion" THEN {<<-1, -1>>} ELSE UNION {{s \in [1 .. n -> {1, -1, 0}] :
                  \A i \in 1 .. n - 1 : s[i] = 0 => s[i + 1] = 0} : n \in 1 .. MaxDim}

SmallCo(r) == CASE r = "Z" -> -3 .. 3 [] r = "R" -> 0 .. 5
                [] r = "G" -> (-2 .. 2) \X (-2 .. 2)
                [] OTHER -> (-1 .. 1) \X (-1 .. 1) \X (-1 .. 1) \X (-1 .. 1)

RE(S) == RandomElement(S)
Sorted(b) == SetToSortSeq(b, LAMBDA x, y : x < y)
Abs(x) == IF x < 0 THEN -x ELSE x
Size(r, c) == IF r = "Z" \/ r = "R" THEN Abs(c) ELSE FoldSeq(LAMBDA x, acc : acc + Abs(x), 0, c)
Fits(f) == \A b \in DOMAIN f : Size(ring, f[b]) <= Limit

Entries(n) == TLCEval([i \in 1 .. n |-> <<Sorted(RE(Blades(sig))), RE(SmallCo(ring))>>])
\* also blades outside the algebra
AnyBlade == IF RE(1 .. 4) = 1 THEN RE(Blades(sig)) \cup {Dim(sig) + RE(0 .. 2)} ELSE RE(Blades(sig))

\* a register, mostly one that is not zero
Live == {n \in RegNames : regs[n] # MvZero}
Src == IF Live = {} \/ RE(1 .. 10) = 1 THEN RE(RegNames) ELSE RE(Live)

Cmd(o) ==
  LET d == RE(RegNames) x == Src y == Src IN
  CASE o \in {"mul", "nmul", "wedge", "meet", "nwedge", "nmeet", "add", "sub"} ->
         [op |-> o, d |-> d, x |-> x, y |-> y]
    [] o \in {"neg", "rev", "flip", "dual", "undual"} -> [op |-> o, d |-> d, x |-> x]
    [] o = "scale" -> [op |-> o, d |-> d, x |-> x, c |-> RE(SmallCo(ring))]
    [] o = "flipsub" -> [op |-> o, d |-> d, x |-> x, b |-> Sorted(AnyBlade)]
    [] o = "set" -> [op |-> o, d |-> d, x |-> x, b |-> Sorted(AnyBlade), c |-> RE(SmallCo(ring))]
    [] o = "get" -> [op |-> o, x |-> x, b |-> Sorted(AnyBlade)]
    [] o = "pow" -> [op |-> o, d |-> d, x |-> x, n |-> RE(0 .. 4)]
    [] o = "grade" -> [op |-> o, d |-> d, x |-> x, ks |-> <<RE(0 .. Dim(sig) + 1)>>]
    [] o \in {"zero", "one"} -> [op |-> o, d |-> d]
    [] o = "fromscalar" -> [op |-> o, d |-> d, c |-> RE(SmallCo(ring))]
    [] o \in {"eq", "vdot", "vsdot"} -> [op |-> o, x |-> x, y |-> y]
    [] o \in {"iszero", "mag2", "vecpart"} -> [op |-> o, x |-> x]
    [] o = "fromidx" -> [op |-> o, d |-> d, l |-> Entries(RE(0 .. 5))]

Step(e) ==
  LET o == e.op IN
  CASE o = "fromidx" -> FromIdx(e)
    [] o \in {"mul", "nmul"} -> Mul(e)
    [] o \in {"wedge", "nwedge"} -> WedgeA(e)
    [] o \in {"meet", "nmeet"} -> MeetA(e)
    [] o = "add" -> Add(e)
    [] o = "sub" -> Sub(e)
    [] o = "neg" -> Neg(e)
    [] o = "scale" -> Scale(e)
    [] o = "rev" -> RevA(e)
    [] o = "flip" -> FlipA(e)
    [] o = "flipsub" -> FlipSubA(e)
    [] o = "dual" -> DualA(e)
    [] o = "undual" -> UndualA(e)
    [] o = "get" -> Get(e)
    [] o = "set" -> Set(e)
    [] o = "eq" -> Equal(e)
    [] o = "iszero" -> IsZero(e)
    [] o = "vdot" -> VDotA(e)
    [] o = "vsdot" -> VsDotA(e)
    [] o = "mag2" -> Mag2A(e)
    [] o = "pow" -> Pow(e)
    [] o = "grade" -> Grade(e)
    [] o = "vecpart" -> VecPart(e)
    [] o = "zero" -> ZeroC(e)
    [] o = "one" -> OneC(e)
    [] o = "fromscalar" -> FromScalar(e)

GenInit == /\ \E s \in Sigs, r \in GenRings : Init0(s, r) /\ cmds = <<[op |-> "begin", sig |-> s, ring |-> r]>>

\* the command is drawn once: bound variables are evaluated eagerly; two draws, mostly of calls with a result that is not zero
GenNext ==
  /\ Len(cmds) <= Depth
  /\ \E i \in 1 .. 2 : \E o \in {IF Len(cmds) <= 3 \/ RE(1 .. 4) = 1 THEN "fromidx" ELSE RE(Ops)} :
     \E e \in {Cmd(o)} :
       /\ Step(e)
       /\ cmds' = Append(cmds, e)
       /\ "d" \in DOMAIN e => Fits(regs'[e.d]) /\ (i = 1 \/ regs'[e.d] # MvZero \/ RE(1 .. 4) = 1)
  /\ Len(cmds') = Depth + 1 => PrintT("BEHAVIOUR" \o ToJson(cmds'))

GenSpec == GenInit /\ [][GenNext]_<<vars, cmds>>

TypeOK == \A n \in RegNames : IsMv(sig, ring, regs[n])
=============================================================================
