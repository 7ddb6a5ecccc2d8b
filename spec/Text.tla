-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text of multivectors.  A request is a record with the terms e.l (list   *)
(* of <<blade, coefficient>>), the kind of the coefficients e.ty, a common *)
(* denominator e.q in {1, 2, 4, 8}, the names of the generators and the    *)
(* formatting flags e.f = [alt, plus, zero, left, w, p, m]:                *)
(*   alternate, sign, zero padding, left alignment, width (0: none),       *)
(*   precision (-1: none), mode "d", "e" or "E".                           *)
(***************************************************************************)
EXTENDS Machine

Num(n) == ToString(n)
RECURSIVE Repeat_(_, _)
Repeat_(c, k) == IF k <= 0 THEN "" ELSE c \o Repeat_(c, k - 1)
RECURSIVE Strip(_)
Strip(n) == IF n # 0 /\ n % 10 = 0 THEN Strip(n \div 10) ELSE n
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
AbsN(n) == IF n < 0 THEN -n ELSE n

\* fraction digits: the number m with k digits (leading zeros), shown without trailing zeros or with exactly p digits
Frac(m, k, p) ==
  LET s == Strip(m)
      d == IF m = 0 THEN 0 ELSE k - (Digits(m) - Digits(s))         \* digits that are left
      t == IF m = 0 THEN "" ELSE Repeat_("0", d - Digits(s)) \o Num(s)
      all == t \o Repeat_("0", p - d)
  IN  IF all = "" THEN "" ELSE "." \o all

\* the absolute value n/q in decimal or scientific notation
Decimal(n, q, isint, p) == Num(n \div q) \o Frac((n % q) * (1000 \div q), 3, IF isint THEN 0 ELSE p)
Scientific(n, q, p, mark) ==
  LET t == n * (1000 \div q)         \* thousandths
      k == Digits(t)
      h == 10 ^ (k - 1)
  IN  IF n = 0 THEN "0" \o Frac(0, 1, p) \o mark \o "0"
      ELSE Num(t \div h) \o Frac(t % h, k - 1, p) \o mark \o
           (IF k >= 4 THEN Num(k - 4) ELSE "-" \o Num(4 - k))
Magnitude(n, q, isint, f) == IF f.m = "d" THEN Decimal(n, q, isint, f.p) ELSE Scientific(n, q, f.p, f.m)
SignText(neg, f) == IF neg THEN "-" ELSE IF f.plus THEN "+" ELSE ""
Padded(sg, body, f) ==
  LET k == f.w - Len(sg) - Len(body)
  IN  IF f.zero THEN sg \o Repeat_("0", k) \o body
      ELSE IF f.left THEN sg \o body \o Repeat_(" ", k)
      ELSE Repeat_(" ", k) \o sg \o body
Real(n, q, isint, f) == Padded(SignText(n < 0, f), Magnitude(AbsN(n), q, isint, f), f)
\* whether scientific notation has a negative exponent
NegExp(n, q, f) == f.m # "d" /\ n # 0 /\ AbsN(n) < q

Label(names, b) == LET w == Descending(b)
                   IN  FoldLeft(LAMBDA s, g : IF s = "" THEN names[g + 1] ELSE s \o "^" \o names[g + 1], "", w)
LabelRev(names, b) == LET w == Reverse(Descending(b))
                      IN  FoldLeft(LAMBDA s, g : IF s = "" THEN names[g + 1] ELSE s \o "^" \o names[g + 1], "", w)

IndexLess(a, b) == a # b /\ Max(BladeXor(a, b)) \in b
ByIndex(S) == SetToSortSeq(S, IndexLess)
Join(ts) == FoldLeft(LAMBDA s, t : IF s = "" THEN t ELSE s \o " + " \o t, "", ts)

----------------------------------------------------------------------------
\* coefficients: integers over e.q, complex pairs, or multivectors with integer coefficients
CNegOf(ty, c) == CASE ty = "int" \/ ty = "float" -> -c
                   [] ty = "cplx" -> <<-c[1], -c[2]>>
                   [] ty = "mv" -> [i \in 1 .. Len(c) |-> <<c[i][1], -c[i][2]>>]
CVanish(ty, c) == CASE ty = "int" \/ ty = "float" -> c = 0
                    [] ty = "cplx" -> c[1] = 0 /\ c[2] = 0
                    [] ty = "mv" -> \A i \in 1 .. Len(c) : c[i][2] = 0

\* the terms that are left, as a function from blades to coefficients
Terms(l, ty) ==
  LET bs == [i \in 1 .. Len(l) |-> Bl(l[i][1])]
      D == {bs[i] : i \in 1 .. Len(l)}
      c == [b \in D |-> l[Max({i \in 1 .. Len(l) : bs[i] = b})][2]]
  IN  [b \in {x \in D : ~CVanish(ty, c[x])} |-> c[b]]

WithLabel(t, lab) == IF lab = "" THEN t ELSE t \o " " \o lab
Paren(signed, t) == IF signed THEN "(" \o t \o ")" ELSE t
Lab(names, b, f) == IF f.alt THEN LabelRev(names, b) ELSE Label(names, b)

\* a multivector with real coefficients
RealTerm(names, b, c, q, isint, f) ==
  LET n == IF f.alt THEN RevSign(b) * c ELSE c
  IN  WithLabel(Paren(n < 0 \/ f.plus \/ NegExp(n, q, f), Real(n, q, isint, f)), Lab(names, b, f))
RealTerms(names, l, q, isint, f) ==
  LET c == Terms(l, "int") bs == ByIndex(DOMAIN c)
  IN  [i \in 1 .. Len(bs) |-> RealTerm(names, bs[i], c[bs[i]], q, isint, f)]
RealText(names, l, q, isint, f) ==
  LET ts == RealTerms(names, l, q, isint, f) IN IF ts = <<>> THEN Real(0, q, isint, f) ELSE Join(ts)
RealSigned(l, f) ==     \* does the text of a non-zero multivector carry a sign
  LET c == Terms(l, "int") IN
  \/ f.plus \/ Cardinality(DOMAIN c) > 1
  \/ \E b \in DOMAIN c : (IF f.alt THEN RevSign(b) * c[b] ELSE c[b]) < 0

Complex(c, q, f) ==
  LET g == [f EXCEPT !.w = 0]
  IN  SignText(c[1] < 0, f) \o Magnitude(AbsN(c[1]), q, FALSE, g) \o (IF c[2] < 0 THEN "-" ELSE "+")
      \o Magnitude(AbsN(c[2]), q, FALSE, g) \o "i"

Term(e, b, c0) ==
  LET f == e.f
      c == IF f.alt /\ RevSign(b) = -1 THEN CNegOf(e.ty, c0) ELSE c0
      lab == Lab(e.names, b, f)
  IN  CASE e.ty = "int" \/ e.ty = "float" -> RealTerm(e.names, b, c0, e.q, e.ty = "int", f)
        [] e.ty = "cplx" -> WithLabel(Paren(TRUE, Complex(c, e.q, f)), lab)
        [] e.ty = "mv" -> WithLabel(Paren(RealSigned(c, f), RealText(e.inner, c, 1, TRUE, f)), lab)
ZeroText(e) == CASE e.ty = "int" \/ e.ty = "float" -> Real(0, e.q, e.ty = "int", e.f)
                 [] e.ty = "cplx" -> Complex(<<0, 0>>, e.q, e.f)
                 [] e.ty = "mv" -> Real(0, 1, TRUE, e.f)

\* the admissible texts: terms in ascending order, or in any order if e.any
Texts(e) ==
  LET c == Terms(e.l, e.ty)
      D == DOMAIN c
      ts == [b \in D |-> Term(e, b, c[b])]
  IN  IF D = {} THEN {ZeroText(e)}
      ELSE IF e.any THEN {Join([i \in 1 .. Len(p) |-> ts[p[i]]]) : p \in SetToSeqs(D)}
      ELSE LET p == ByIndex(D) IN {Join([i \in 1 .. Len(p) |-> ts[p[i]]])}

Fmt(e) == Show("oneof", Texts(e))
Labels(e) == Show("seq", <<Label(e.names, Bl(e.b)), LabelRev(e.names, Bl(e.b))>>)
=============================================================================
