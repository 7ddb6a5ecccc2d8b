------------------------------ MODULE MvLawsMC ------------------------------
(* Constants for MvLaws. *)
EXTENDS MvLaws
SigsA == {<<1>>, <<-1>>, <<0>>, <<1, -1>>}
SigsB == {<<1, 1>>, <<-1, -1>>, <<1, -1>>, <<-1, 0>>, <<0, 0>>}
SigsC == {<<1>>, <<-1>>, <<0>>}
SigsQ == {<<-1>>, <<-1, -1>>}
Vals3 == [Z |-> {0, 1, -2}, R |-> {0, 2, 3, 5}, G |-> {<<0, 0>>, <<0, 1>>, <<2, -1>>},
          H |-> {<<0, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 0, -1, 0>>, <<0, 0, 1, 2>>},
          M |-> {<<0, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 2, 1>>, <<1, 1, 0, -1>>}]
=============================================================================
