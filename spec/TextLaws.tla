------------------------------ MODULE TextLaws ------------------------------
(***************************************************************************)
(* Texts determine values: over small multivectors, two different values   *)
(* never have the same plain or the same alternate text, and an alternate  *)
(* term read as a word of ascending generators denotes the same value.     *)
(***************************************************************************)
EXTENDS Text
VARIABLES c
CONSTANT NameSets
tvars == <<vars, c>>
Names(k) == IF k = "std" THEN <<"e0", "e1">> ELSE <<"x", "xy">>
Bs == SUBSET {0, 1}
ListOf(f) == LET bs == ByIndex(Bs) IN [i \in 1 .. Len(bs) |-> <<SetToSeq(bs[i]), f[bs[i]]>>]
Flags(alt, plus, m) == [alt |-> alt, plus |-> plus, zero |-> FALSE, left |-> FALSE, w |-> 0, p |-> -1, m |-> m]
Req(f, k, fl) == [l |-> ListOf(f), ty |-> "int", q |-> 1, names |-> Names(k), inner |-> <<>>, f |-> fl, any |-> FALSE]
Vals == [Bs -> -1 .. 1]
AllFlags == {Flags(a, p, m) : a \in BOOLEAN, p \in BOOLEAN, m \in {"d", "e", "E"}}

Init == Init0(<<1, -1>>, "Z") /\ c \in Vals
Spec == Init /\ [][FALSE]_tvars
LInjective == \A k \in NameSets : \A fl \in AllFlags :
                \A g \in Vals : Texts(Req(c, k, fl)) = Texts(Req(g, k, fl)) => g = c
\* ascending words are the descending ones up to the sign of the reversal
LAlternate == \A b \in Bs : Reduce(sig, Reverse(Descending(b)), 1) = <<RevSign(b), Descending(b)>>
=============================================================================
