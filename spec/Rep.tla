-------------------------------- MODULE Rep --------------------------------
(***************************************************************************)
(* The matrix representation behind the fast transform, written as         *)
(* monomial (one entry per row) matrices in the Jordan-Wigner form:        *)
(* generator 2k acts on bit k of the spinor index as sigma_x, generator    *)
(* 2k+1 as ((0,i),(-i,0)), each with a sign for every bit set above k.     *)
(* A generator with negative square is -i times that.                      *)
(* An array is a function from <<w, i, j>> (w: set bits = null generators  *)
(* contained in the left factor) to non-zero Gaussian integers.            *)
(***************************************************************************)
EXTENDS Clifford

Side(sig) == 2 ^ ((NonNull(sig) + 1) \div 2)
Shape(sig) == <<2 ^ Cardinality(NullGens(sig)), Side(sig), Side(sig)>>

Bit(x, k) == (x \div (2 ^ k)) % 2
RECURSIVE PopC(_)
PopC(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopC(x \div 2)
RECURSIVE XorI(_, _)
XorI(x, y) == IF x = 0 /\ y = 0 THEN 0 ELSE 2 * XorI(x \div 2, y \div 2) + ((x + y) % 2)

\* entry of generator g in row i: <<column, power of i>>
GenRow(neg, g, i) ==
  LET k == g \div 2
      bit == Bit(i, k)
      col == IF bit = 0 THEN i + 2 ^ k ELSE i - 2 ^ k
      str == 2 * PopC(i \div (2 ^ (k + 1)))
      own == IF g % 2 = 0 THEN 0 ELSE IF bit = 0 THEN 1 ELSE 3
  IN  <<col, (str + own + (IF neg THEN 3 ELSE 0)) % 4>>

\* row i of the matrix of a blade of non-null generators: product in descending order
RECURSIVE BladeRow(_, _, _)
BladeRow(sig, b, i) ==
  IF b = {} THEN <<i, 0>>
  ELSE LET g == Max(b)
           h == GenRow(sig[g + 1] = -1, g, i)
           t == BladeRow(sig, b \ {g}, h[1])
       IN  <<t[1], (h[2] + t[2]) % 4>>

NullIndex(sig, b) == LET n == NonNull(sig) IN Bits({g - n : g \in b \cap NullGens(sig)})

\* array of a multivector over "G"; blades that fill the same places are collected first
RepArr(sig, f) ==
  LET nul == NullGens(sig)
      rows == 0 .. (Side(sig) - 1)
      D == DOMAIN f
      e == TLCEval([b \in D |-> [i \in rows |-> BladeRow(sig, b \ nul, i)]])
      cls == TLCEval([b \in D |-> <<NullIndex(sig, b), e[b][0][1]>>])   \* slice, column in row 0
      grp == TLCEval([c \in {cls[b] : b \in D} |-> {b \in D : cls[b] = c}])
      At(G, i) == FoldSet(LAMBDA b, acc : LET t == CMul("G", IPow(e[b][i][2]), f[b])
                                          IN <<acc[1] + t[1], acc[2] + t[2]>>, <<0, 0>>, G)
      keys == TLCEval({<<c[1], i, XorI(i, c[2])>> : c \in DOMAIN grp, i \in rows})
  IN  Canon("G", TLCEval([k \in keys |-> At(grp[<<k[1], XorI(k[2], k[3])>>], k[2])]))

\* Side times the multivector of an array (defined when the number of non-null generators is even)
UnRepScaled(sig, arr) ==
  LET nul == NullGens(sig)
      rows == 0 .. (Side(sig) - 1)
      At(w, i, j) == IF <<w, i, j>> \in DOMAIN arr THEN arr[<<w, i, j>>] ELSE <<0, 0>>
      Cf(b) == LET w == NullIndex(sig, b) IN
               CSumOver("G", rows, LAMBDA i : LET h == BladeRow(sig, b \ nul, i)
                                              IN CMul("G", IPow(-h[2]), At(w, i, h[1])))
      \* only blades that fill places of the array
      cls == TLCEval({<<k[1], XorI(k[2], k[3])>> : k \in DOMAIN arr})
      D == TLCEval({b \in Blades(sig) : <<NullIndex(sig, b), BladeRow(sig, b \ nul, 0)[1]>> \in cls})
  IN  Canon("G", TLCEval([b \in D |-> Cf(b)]))

\* matrix algebra on arrays of one slice (used to state that RepArr is a homomorphism)
ArrAt(a, w, i, j) == IF <<w, i, j>> \in DOMAIN a THEN a[<<w, i, j>>] ELSE <<0, 0>>
MatMul(a, b) ==
  LET K == {<<x[1], x[2], y[3]>> : x \in DOMAIN a, y \in DOMAIN b}
  IN  Canon("G", [k \in K |->
        CSumOver("G", {x \in DOMAIN a : x[2] = k[2]},
                 LAMBDA x : CMul("G", a[x], ArrAt(b, 0, x[3], k[3])))])
Ident(n) == [k \in {<<0, i, i>> : i \in 0 .. (n - 1)} |-> <<1, 0>>]
Trace0(sig, arr) == CSumOver("G", 0 .. (Side(sig) - 1), LAMBDA i : ArrAt(arr, 0, i, i))

\* half-spin blocks: rows and columns of even (odd) weight, renumbered in ascending order
HalfIdx(n, par) == {i \in 0 .. (n - 1) : PopC(i) % 2 = par}
Rank(S, i) == Cardinality({j \in S : j < i})
HalfSpin(n, arr, par) ==
  LET S == HalfIdx(n, par)
      K == {k \in DOMAIN arr : k[2] \in S /\ k[3] \in S}
      M == {<<<<0, Rank(S, k[2]), Rank(S, k[3])>>, arr[k]>> : k \in K}
  IN  [x \in {m[1] : m \in M} |-> (CHOOSE m \in M : m[1] = x)[2]]
=============================================================================
