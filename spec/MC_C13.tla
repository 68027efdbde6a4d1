------------------------------- MODULE MC_C13 -------------------------------
(* Every small staggered field: coarse-graining commutes with the divergence,*)
(* two successive steps equal one, the top-hat keeps constants and totals.   *)
EXTENDS Resize, Diff
CONSTANTS N1, N2, Vals, Fac, Line4
VARIABLES w, stage
V01 == {0, 1}
V012 == {0, 1, 4}
M == N1 * N2
G == [n |-> <<N1, N2>>, h |-> <<HALF, ONE>>, r |-> <<2 * ONE, ONE>>, lo |-> <<0, 0>>, hi |-> <<N1 * HALF, N2 * ONE>>]
PBC == [t |-> <<<<"P","P">>, <<"P","P">>>>, b |-> <<<<0,0>>, <<0,0>>>>]
Fld(g, v, o, bc) == [s |-> g.n, v |-> v, o |-> o, g |-> g, bc |-> bc]
Init == stage = 0 /\ w \in (IF Line4 THEN [1..1 -> [1..N1 -> Vals]] ELSE [1..2 -> [1..M -> Vals]])
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, stage>>

V == << Fld(G, [k \in 1..M |-> w[1][k] * ONE], <<4, 2>>, PBC), Fld(G, [k \in 1..M |-> w[2][k] * ONE], <<2, 4>>, PBC) >>
CG == Regrid(Regrid(G, 1, N1 \div Fac), 2, N2 \div Fac)
W == [c \in 1..2 |-> LET a == FaceMean(V[c], c, Fac) IN Fld(CG, a.v, V[c].o, PBC)]
Commutes == (stage = 1 /\ ~Line4) => NearA(Arr2(Diverge(W)), CellMean(Diverge(V), <<Fac, Fac>>), 2)
Totals == (stage = 1 /\ ~Line4) => \A c \in 1..2 : MaxA(W[c]) <= MaxA(V[c]) /\ MinA(W[c]) >= MinA(V[c])
Chain == (stage = 1 /\ ~Line4 /\ N1 % 4 = 0 /\ N2 % 4 = 0) =>
   \A c \in 1..2 : NearA(FaceMean(FaceMean(V[c], c, 2), c, 2), FaceMean(V[c], c, 4), 2)

\* one-dimensional top-hat
G1 == [n |-> <<N1>>, h |-> <<HALF>>, r |-> <<2 * ONE>>, lo |-> <<0>>, hi |-> <<N1 * HALF>>]
Kinds == { <<"P","P">>, <<"D","D">>, <<"N","N">> }
L(t, o) == Fld(G1, [k \in 1..N1 |-> w[1][k] * ONE], <<o>>, [t |-> <<t>>, b |-> <<<<0, 0>>>>])
FF == {<<2, 2>>, <<2, 4>>, <<4, 4>>}
TopHatMean == (stage = 1 /\ Line4) => \A ff \in FF :
   N1 % ff[1] = 0 => LET q == TopHat(L(<<"P","P">>, 2), <<ff[2]>>, <<ff[1]>>) IN
      /\ (ff[1] = ff[2] => Abs(SumS(q.v) * ff[1] - SumS(w[1]) * ONE) <= 64)
      /\ (ff[1] = ff[2] => NearA(Arr2(q), CellMean(L(<<"P","P">>, 2), <<ff[1]>>), 4))
TopHatBounds == (stage = 1 /\ Line4) => \A ff \in FF : \A t \in {<<"P","P">>, <<"N","N">>} :
   N1 % ff[1] = 0 => LET f == L(t, 2) q == TopHat(f, <<ff[2]>>, <<ff[1]>>) IN
      MaxA(q) <= MaxA(f) /\ MinA(q) >= MinA(f)
TopHatSize == (stage = 1 /\ Line4) => \A ff \in FF : \A t \in Kinds : \A o \in (IF t[1] = "N" THEN {2} ELSE {0, 2, 4}) :
   N1 % ff[1] = 0 => LET q == TopHat(L(t, o), <<ff[2]>>, <<ff[1]>>) IN q.s = <<N1 \div ff[1]>> /\ q.o = <<o>> /\ q.g.n = q.s
=============================================================================
