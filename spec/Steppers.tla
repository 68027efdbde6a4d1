------------------------------ MODULE Steppers ------------------------------
(* One time step of every stepper, as a function of the right-hand side,     *)
(* the constraint projection and the implicit term.  States are vectors.     *)
EXTENDS Integers, Sequences, TLC, Fix, SequencesExt

N(x) == Len(x)
VMap(n, E(_)) == TLCEval([i \in 1..n |-> E(i)])
VAdd(x, y) == VMap(Len(x), LAMBDA i : x[i] + y[i])
VScale(c, x) == VMap(Len(x), LAMBDA i : FMul(c, x[i]))
VAxpy(x, c, y) == VMap(Len(x), LAMBDA i : x[i] + FMul(c, y[i]))
Zero(n) == [i \in 1..n |-> 0]

\* --- right-hand sides, projections and implicit terms of the stub problems --
\* F(v)_i = c_i + sum_j A_ij v_j + q_i v_i v_{i+1}
RHS(p, v) == VMap(Len(v), LAMBDA i :
   p.c[i] + SumS([j \in 1..Len(v) |-> FMul(p.A[i][j], v[j])]) + FMul(p.q[i], FMul(v[i], v[(i % Len(v)) + 1])))
Proj(p, v) ==
  CASE p.P = "none" -> v
    [] p.P = "mean" -> LET m == SumS(v) \div Len(v) IN VMap(Len(v), LAMBDA i : v[i] - m)
    [] p.P = "clip" -> VMap(Len(v), LAMBDA i : Max2(-ONE, Min2(ONE, v[i])))
    [] p.P = "affine" -> VMap(Len(v), LAMBDA i : v[i] \div 2 + ONE \div 4)
\* G(v)_i = g_i v_i + d_i and the solution of y - eta G(y) = x
Imp(p, v) == VMap(Len(v), LAMBDA i : FMul(p.g[i], v[i]) + p.d[i])
Solve(p, x, eta) == VMap(Len(x), LAMBDA i : FDiv(x[i] + FMul(eta, p.d[i]), ONE - FMul(eta, p.g[i])))

\* weighted sum of the first Len(w) rows of k
RECURSIVE Comb(_, _, _, _)
Comb(w, k, j, n) == IF j > Len(w) \/ j > Len(k) THEN Zero(n)
                    ELSE LET rest == Comb(w, k, j + 1, n) IN IF w[j] = 0 THEN rest ELSE VAxpy(rest, w[j], k[j])

\* --- explicit Runge-Kutta with projection ----------------------------------
RECURSIVE Stages(_, _, _, _, _)
\* k: derivatives found so far
Stages(p, a, u0, dt, k) ==
  IF Len(k) > Len(a) THEN k
  ELSE LET star == VAxpy(u0, dt, Comb(a[Len(k)], k, 1, Len(u0)))
       IN  Stages(p, a, u0, dt, Append(k, TLCEval(RHS(p, Proj(p, star)))))
ExplicitStep(p, tab, u0, dt) ==
  LET k == Stages(p, tab.a, u0, dt, <<TLCEval(RHS(p, u0))>>)
  IN  Proj(p, VAxpy(u0, dt, Comb(tab.b, k, 1, Len(u0))))

SIXTH == FRat(1, 6)
THIRD == FRat(1, 3)
ForwardEuler == [a |-> <<>>, b |-> <<ONE>>]
Midpoint     == [a |-> <<<<HALF>>>>, b |-> <<0, ONE>>]
Heun         == [a |-> <<<<ONE>>>>, b |-> <<HALF, HALF>>]
Classic4     == [a |-> <<<<HALF>>, <<0, HALF>>, <<0, 0, ONE>>>>, b |-> <<SIXTH, THIRD, THIRD, SIXTH>>]
Named(n) == CASE n = "forward_euler" -> ForwardEuler [] n = "midpoint_rk2" -> Midpoint
              [] n = "heun_rk2" -> Heun [] n = "classic_rk4" -> Classic4

\* --- implicit-explicit steppers ---------------------------------------------
BFEuler(p, u, dt) == Solve(p, VAxpy(u, dt, RHS(p, u)), dt)
CNRK2(p, u, dt) ==
  LET g == VAxpy(u, dt \div 2, Imp(p, u))
      h1 == RHS(p, u)
      u1 == TLCEval(Solve(p, VAxpy(g, dt, h1), dt \div 2))
      h2 == VScale(HALF, VAdd(RHS(p, u1), h1))
  IN  Solve(p, VAxpy(g, dt, h2), dt \div 2)
RECURSIVE LowStorage(_, _, _, _, _, _)
LowStorage(p, co, u, h, k, dt) ==
  IF k > Len(co.beta) THEN u
  ELSE LET h2 == TLCEval(VAxpy(RHS(p, u), co.beta[k], h))
           mu == FMul(dt, co.alpha[k + 1] - co.alpha[k]) \div 2
           x  == VAxpy(VAxpy(u, FMul(co.gamma[k], dt), h2), mu, Imp(p, u))
       IN  LowStorage(p, co, TLCEval(Solve(p, x, mu)), h2, k + 1, dt)
LowStorageStep(p, co, u, dt) == LowStorage(p, co, u, Zero(Len(u)), 1, dt)
Williamson == [alpha |-> <<0, FRat(1, 3), FRat(3, 4), ONE>>, beta |-> <<0, -FRat(5, 9), -FRat(153, 128)>>,
               gamma |-> <<FRat(1, 3), FRat(15, 16), FRat(8, 15)>>]
\* rounded to 2^-18
Carpenter == [alpha |-> <<0, 39232, 97098, 163121, 251208, ONE>>,
              beta |-> <<0, -109547, -312515, -445064, -396934>>,
              gamma |-> <<39232, 99408, 215732, 183357, 40123>>]

RECURSIVE ImexStages(_, _, _, _, _, _)
ImexStages(p, t, y0, dt, f, g) ==
  IF Len(f) > Len(t.aex) THEN [f |-> f, g |-> g]
  ELSE LET i == Len(f)
           star == VAdd(VAxpy(y0, dt, Comb(SubSeq(t.aex[i], 1, i), f, 1, Len(y0))),
                        VScale(dt, Comb(SubSeq(t.aim[i], 1, i), g, 1, Len(y0))))
           Y == TLCEval(Solve(p, star, FMul(dt, t.aim[i][i + 1])))
       IN  ImexStages(p, t, y0, dt, Append(f, TLCEval(RHS(p, Y))), Append(g, TLCEval(Imp(p, Y))))
ImexStep(p, t, y0, dt) ==
  LET r == ImexStages(p, t, y0, dt, <<TLCEval(RHS(p, y0))>>, <<TLCEval(Imp(p, y0))>>)
  IN  VAdd(VAxpy(y0, dt, Comb(t.bex, r.f, 1, Len(y0))), VScale(dt, Comb(t.bim, r.g, 1, Len(y0))))
SIL3 == [aex |-> <<<<THIRD>>, <<SIXTH, HALF>>, <<HALF, -HALF, ONE>>>>,
         aim |-> <<<<SIXTH, SIXTH>>, <<THIRD, 0, THIRD>>, <<FRat(3, 8), 0, FRat(3, 8), ONE \div 4>>>>,
         bex |-> <<HALF, -HALF, ONE, 0>>, bim |-> <<FRat(3, 8), 0, FRat(3, 8), ONE \div 4>>]
ImplicitStep(sc, p, u, dt) ==
  CASE sc.name = "backward_forward_euler" -> BFEuler(p, u, dt)
    [] sc.name = "crank_nicolson_rk2" -> CNRK2(p, u, dt)
    [] sc.name = "crank_nicolson_rk3" -> LowStorageStep(p, Williamson, u, dt)
    [] sc.name = "crank_nicolson_rk4" -> LowStorageStep(p, Carpenter, u, dt)
    [] sc.name = "imex_rk_sil3" -> ImexStep(p, SIL3, u, dt)
    [] sc.name = "low_storage" -> LowStorageStep(p, sc.co, u, dt)
    [] sc.name = "imex" -> ImexStep(p, sc.co, u, dt)
=============================================================================
