------------------------------- MODULE Solver -------------------------------
(* A whole time step: what the flow is pushed by, and the relation between    *)
(* the velocity before and after the step.  Pressure never appears: a result  *)
(* is the projection of a candidate exactly when it is free of divergence and *)
(* differs from the candidate by a difference of one scalar.                  *)
EXTENDS Advect, Diffuse

DiffF(a, b) == [a EXCEPT !.v = TLCEval([k \in 1..Len(a.v) |-> a.v[k] - b.v[k]])]
ScaleF(a, c) == [a EXCEPT !.v = TLCEval([k \in 1..Len(a.v) |-> FMul(c, a.v[k])])]
AxpyF(a, c, b) == [a EXCEPT !.v = TLCEval([k \in 1..Len(a.v) |-> a.v[k] + FMul(c, b.v[k])])]
Small(f, tol) == \A k \in 1..Len(f.v) : Abs(f.v[k]) <= tol
Periodic(nd) == [t |-> [d \in 1..nd |-> <<"P", "P">>], b |-> [d \in 1..nd |-> <<0, 0>>]]

\* --- eddy viscosity -------------------------------------------------------------
Strain(w) == LET nd == Len(w)  D == TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |-> Fwd(w[i], j)])]) IN
  TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |->
    [D[i][j] EXCEPT !.v = TLCEval([k \in 1..Len(@) |-> (D[i][j].v[k] + D[j][i].v[k]) \div 2]), !.bc = Periodic(nd)]])])
\* viscosity (cs D)^2 |S| at the cell centre, then at the place of each strain
CentreVisc(S, cs2) ==
  LET nd == Len(S)  mid == [d \in 1..nd |-> 2]
      M == TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |-> Linear(S[i][j], mid)])])
  IN  [M[1][1] EXCEPT !.v = TLCEval([k \in 1..Len(@) |->
        FMul(cs2, FSqrt(2 * SumS([q \in 1..(nd * nd) |-> FSq(M[((q - 1) \div nd) + 1][((q - 1) % nd) + 1].v[k])])))])]
Smagorinsky(S, cs2) == LET n0 == CentreVisc(S, cs2) IN
  TLCEval([i \in 1..Len(S) |-> TLCEval([j \in 1..Len(S) |-> Linear(n0, S[i][j].o)])])
\* acceleration: divergence of twice viscosity times strain
Eddy(S, N) == TLCEval([i \in 1..Len(S) |-> Diverge(TLCEval([j \in 1..Len(S) |->
  [S[i][j] EXCEPT !.v = TLCEval([k \in 1..Len(@) |-> 2 * FMul(N[i][j].v[k], S[i][j].v[k])])]]))])
EddyOf(w, cs2) == LET S == Strain(w) IN Eddy(S, Smagorinsky(S, cs2))

\* --- what pushes the flow ----------------------------------------------------------
AdvOf(p, w) ==
  CASE p.scheme = "convect" -> Convect(w)
    [] p.scheme = "coconvect" -> CoConvect(w)
    [] p.scheme = "vanleer" -> TLCEval([c \in 1..Len(w) |-> VanLeer(w[c], w, p.dt, "mirror")])
    [] p.scheme = "none" -> TLCEval([c \in 1..Len(w) |-> ScaleF(w[c], 0)])
    [] OTHER -> TLCEval([c \in 1..Len(w) |-> FluxForm(p.scheme, w[c], w, p.dt)])
Kinematic(p) == FDiv(p.mu, p.rho)
\* the body force: a given field plus a multiple of the velocity
Push(p, w, c, k) == FDiv(p.F[c].v[k] + FMul(p.lin, w[c].v[k]), p.rho)
RateOf(p, w, diffusing) ==
  LET adv == AdvOf(p, w)
      ed  == IF p.cs2 = 0 \/ ~diffusing THEN adv ELSE EddyOf(w, p.cs2)
      df  == IF ~diffusing \/ ~p.viscous THEN adv
             ELSE TLCEval([c \in 1..Len(w) |-> IF p.alg = "collocated" THEN CoRate(w[c], Kinematic(p)) ELSE Rate(w[c], Kinematic(p))])
  IN  TLCEval([c \in 1..Len(w) |-> [w[c] EXCEPT !.v = TLCEval([k \in 1..Len(@) |->
        adv[c].v[k] + (IF diffusing /\ p.viscous THEN df[c].v[k] ELSE 0) + (IF diffusing /\ p.cs2 # 0 THEN ed[c].v[k] ELSE 0)
        + Push(p, w, c, k)])]])

\* --- Runge-Kutta candidates: states w_1 .. w_s, candidate i = w_1 + dt sum a_ij k_j -----------
SIXTH == FRat(1, 6)
THIRD == FRat(1, 3)
Tableau(n) == CASE n = "forward_euler" -> <<<<ONE>>>>
   [] n = "midpoint_rk2" -> <<<<HALF>>, <<0, ONE>>>>
   [] n = "heun_rk2" -> <<<<ONE>>, <<HALF, HALF>>>>
   [] n = "classic_rk4" -> <<<<HALF>>, <<0, HALF>>, <<0, 0, ONE>>, <<SIXTH, THIRD, THIRD, SIXTH>>>>
Candidate(w0, dt, row, ks) == TLCEval([c \in 1..Len(w0) |-> [w0[c] EXCEPT !.v = TLCEval([k \in 1..Len(@) |->
   w0[c].v[k] + FMul(dt, SumS([j \in 1..Len(row) |-> IF row[j] = 0 THEN 0 ELSE FMul(row[j], ks[j][c].v[k])]))])]])

\* --- the projection relation ---------------------------------------------------------------------
ProjRel(star, out, tol) == UNION {
   IF \E c \in 1..Len(out) : ~out[c].ok THEN {"not-finite"} ELSE {},
   IF ~Small(Diverge(out), tol) THEN {"not-divergence-free"} ELSE {},
   IF ~IsGradient([c \in 1..Len(out) |-> DiffF(star[c], out[c])], tol) THEN {"not-a-gradient"} ELSE {} }
\* collocated, periodic: central differences of one scalar.  Free of centred curl, and no mean on any of the
\* sublattices a central difference cannot see across.
ClassOf(n, i) == [d \in 1..Len(i) |-> IF n[d] % 2 = 0 THEN i[d] % 2 ELSE 0]
IsCoGradient(w0, tol) ==
  LET w == TLCEval(w0)  n == w[1].g.n  ix == [k \in 1..Prod(n) |-> Unrav(k - 1, n)]
      cls == {ClassOf(n, ix[k]) : k \in 1..Prod(n)} IN
  /\ \A a, b \in 1..Len(w) : a < b => Small(DiffF(Ctr(w[b], a), Ctr(w[a], b)), tol)
  /\ \A c \in 1..Len(w) : \A q \in cls : Abs(SumS([k \in 1..Prod(n) |-> IF ClassOf(n, ix[k]) = q THEN w[c].v[k] ELSE 0])) <= tol * 4
CoProjRel(star, out, tol) == UNION {
   IF \E c \in 1..Len(out) : ~out[c].ok THEN {"not-finite"} ELSE {},
   IF ~Small(CDiverge(out), tol) THEN {"not-divergence-free"} ELSE {},
   IF ~IsCoGradient([c \in 1..Len(out) |-> DiffF(star[c], out[c])], tol) THEN {"not-a-gradient"} ELSE {} }

\* candidate of an implicit diffusion step: what the diffused field came from
Undiffused(out, kappa, dt, N) ==
  LET ed == IF N = <<>> THEN out ELSE Eddy(Strain(out), N) IN
  TLCEval([c \in 1..Len(out) |-> LET L == Laplace(out[c]) IN
    [out[c] EXCEPT !.v = TLCEval([k \in 1..Len(@) |-> IF OffWallAt(out[c], Unrav(k - 1, out[c].s))
        THEN out[c].v[k] - FMul(kappa, L.v[k]) - (IF N = <<>> THEN 0 ELSE FMul(dt, ed[c].v[k])) ELSE out[c].v[k]])]])
=============================================================================
