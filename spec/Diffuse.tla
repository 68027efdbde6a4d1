------------------------------ MODULE Diffuse ------------------------------
(* Diffusion: explicit rate, largest stable explicit step, and the relation  *)
(* an implicit (backward Euler) step must satisfy.                           *)
EXTENDS LinOp

Rate(f, nu) == LET L == Laplace(f) IN [L EXCEPT !.v = TLCEval([k \in 1..Len(L.v) |-> FMul(nu, L.v[k])])]
CoRate(f, nu) == LET L == CDiverge([d \in 1..Len(f.o) |-> [Ctr(f, d) EXCEPT !.bc = f.bc]])
                 IN [L EXCEPT !.v = TLCEval([k \in 1..Len(L.v) |-> FMul(nu, L.v[k])])]
\* dx^2 / (nu 2^nd)
StableStep(nu, g) == LET dx == MinS(g.h) IN FDiv(FMul(dx, dx), nu) \div (2 ^ Len(g.n))
InteriorPts(f) == {k \in 1..Len(f.v) : OffWallAt(f, Unrav(k - 1, f.s))}
\* x = u + kappa Laplacian(x) wherever x is not prescribed
Residual(u, x, kappa) == LET L == Laplace(x) IN
  MaxS(<<0>> \o SetToSeq({Abs(x.v[k] - FMul(kappa, L.v[k]) - u.v[k]) : k \in InteriorPts(x)}))
Insulated(bc) == \A d \in 1..Len(bc.t) : \A q \in 1..2 : bc.t[d][q] = "P" \/ (bc.t[d][q] = "N" /\ bc.b[d][q] = 0)
HasNeumannFlux(bc) == \E d \in 1..Len(bc.t) : \E q \in 1..2 : bc.t[d][q] = "N" /\ bc.b[d][q] # 0
WallValues(bc) == {bc.b[d][q] : <<d, q>> \in {p \in (1..Len(bc.t)) \X (1..2) : bc.t[p[1]][p[2]] = "D"}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Extent(u) == {u.v[k] : k \in InteriorPts(u)} \cup WallValues(u.bc)
=============================================================================
