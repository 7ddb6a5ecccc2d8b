------------------------------- MODULE MvLaws -------------------------------
(***************************************************************************)
(* Laws of whole multivectors over the coefficient rings.  The state is an *)
(* algebra, a ring and three multivectors; each step writes one            *)
(* coefficient of one of them (values from a small set), so all small      *)
(* multivectors are reached.                                               *)
(***************************************************************************)
EXTENDS Machine

CONSTANTS MvSigs, MvRings, Vals

VARIABLES f, g, h

Vs(r) == Vals[r]

Init == /\ sig \in MvSigs /\ ring \in MvRings
        /\ f = MvZero /\ g = MvZero /\ h \in {Mono(r, b, v) : r \in {ring}, b \in Blades(sig), v \in Vs(ring)}
        /\ regs = 0 /\ out = 0
Put(x, b, v) == Canon(ring, [y \in DOMAIN x \cup {b} |-> IF y = b THEN v ELSE x[y]])
Next == \E b \in Blades(sig), v \in Vs(ring) :
          /\ \/ f' = Put(f, b, v) /\ UNCHANGED g
             \/ g' = Put(g, b, v) /\ UNCHANGED f
          /\ UNCHANGED <<sig, ring, regs, out, h>>
Spec == Init /\ [][Next]_<<vars, f, g, h>>

PP(x, y) == GeoMul(sig, ring, x, y)
A(x, y) == MvAdd(ring, x, y)

TypeInv == IsMv(sig, ring, f) /\ IsMv(sig, ring, g) /\ IsMv(sig, ring, PP(f, g))
LDistr == PP(A(f, g), h) = A(PP(f, h), PP(g, h)) /\ PP(h, A(f, g)) = A(PP(h, f), PP(h, g))
LAssoc == PP(PP(f, g), h) = PP(f, PP(g, h))
LUnit == PP(MvOne(ring), f) = f /\ PP(f, MvOne(ring)) = f
LWedgeDistr == /\ Wedge(sig, ring, A(f, g), h) = A(Wedge(sig, ring, f, h), Wedge(sig, ring, g, h))
               /\ Wedge(sig, ring, h, A(f, g)) = A(Wedge(sig, ring, h, f), Wedge(sig, ring, h, g))
LWedgeAssoc == Wedge(sig, ring, Wedge(sig, ring, f, g), h) = Wedge(sig, ring, f, Wedge(sig, ring, g, h))
LMeetAssoc == Meet(sig, ring, Meet(sig, ring, f, g), h) = Meet(sig, ring, f, Meet(sig, ring, g, h))
LModule == /\ A(f, g) = A(g, f) /\ MvSub(ring, f, f) = MvZero /\ A(f, MvNeg(ring, f)) = MvZero
           /\ MvSub(ring, A(f, g), g) = f
           /\ A(f, MvZero) = f
           /\ \A c, d \in Vs(ring) :
                /\ MvScaleR(ring, A(f, g), c) = A(MvScaleR(ring, f, c), MvScaleR(ring, g, c))
                /\ MvScaleR(ring, MvScaleR(ring, f, c), d) = MvScaleR(ring, f, CMul(ring, c, d))
                /\ MvScaleR(ring, f, c) = PP(f, Scal(ring, c))
LDot == /\ VDot(sig, ring, f, g) = ScalarPart(ring, PP(f, g))
        /\ Mag2(sig, ring, f) = ScalarPart(ring, PP(Rev(ring, f), f))
LPow == PP(MvPow(sig, ring, f, 2), f) = MvPow(sig, ring, f, 3) /\ PP(f, MvPow(sig, ring, f, 2)) = MvPow(sig, ring, f, 3)
LPowBits == /\ MvPowBits(sig, ring, f, <<>>) = MvOne(ring) /\ MvPowBits(sig, ring, f, <<1>>) = f
            /\ MvPowBits(sig, ring, f, <<1, 0>>) = MvPow(sig, ring, f, 2) /\ MvPowBits(sig, ring, f, <<1, 1>>) = MvPow(sig, ring, f, 3)
            /\ MvPowBits(sig, ring, f, <<1, 0, 1>>) = MvPow(sig, ring, f, 5)
            /\ \A s \in {<<>>, <<1>>, <<1, 1>>, <<1, 0, 1>>} :
                  MvPowMod(sig, ToG(ring, f), s, 7) = ModG(MvPowBits(sig, "G", ToG(ring, f), s), 7)
\* (f / g) g = f, multiplied by the norm of g; the norm is a scalar from either side
LDiv == /\ PP(PP(f, ConjOf(g)), g) = MvScaleR(ring, f, NormOf(g))
        /\ PP(g, ConjOf(g)) = Scal(ring, NormOf(g)) /\ PP(ConjOf(g), g) = Scal(ring, NormOf(g))
LRegs == \* a register remembers the last write per blade
         \A b \in Blades(sig), v \in Vs(ring) :
            /\ Coef(ring, Put(f, b, v), b) = v
            /\ \A x \in Blades(sig) \ {b} : Coef(ring, Put(f, b, v), x) = Coef(ring, f, x)
            /\ (v # CZero(ring)) <=> (b \in DOMAIN Put(f, b, v))
=============================================================================
