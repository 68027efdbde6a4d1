------------------------------ MODULE Initial ------------------------------
(* How a starting velocity comes about.  User functions are sampled at each  *)
(* component's own face and optionally projected; arrays are located and     *)
(* given their boundary values; random states are white noise weighted mode  *)
(* by mode, projected, and scaled to a peak speed.                           *)
EXTENDS Solver
T == INSTANCE Trig
Fo == INSTANCE Forcing

\* --- user functions: a0 + sum a_d x_d + b x_1 x_last + c sin(k x_d) --------------
RECURSIVE Lin1(_, _, _)
Lin1(a, x, d) == IF d = 0 THEN 0 ELSE FMul(a[d], x[d]) + Lin1(a, x, d - 1)
UserAt(e, x) == e.a0 + Lin1(e.a, x, Len(x)) + FMul(e.b, FMul(x[1], x[Len(x)])) + FMul(e.c, T!FSin(e.k * x[e.d]))
Sampled(e, g, o, bc, ty) ==
  [s |-> g.n, v |-> Mk(g.n, LAMBDA i : UserAt(e, [d \in 1..Len(i) |-> Fo!Pos(g, d, o[d], i[d])])).v,
   o |-> o, g |-> g, bc |-> bc, ty |-> ty, ok |-> TRUE]

\* --- weights on modes -------------------------------------------------------------
\* w1 + w2 |k| + w3 k^2 + w4 / k^2 with k in radians per unit length; the mean is dropped
WeightOf(w, g, i) ==
  IF Fo!MeanMode(i) THEN 0
  ELSE LET q == Fo!Wave2(g, i)  k2 == FMul(FMul(T!TWOPI, q), T!TWOPI) IN
    w[1] + (IF w[2] = 0 THEN 0 ELSE FMul(w[2], FMul(T!TWOPI, FSqrt(q)))) + (IF w[3] = 0 THEN 0 ELSE FMul(w[3], k2))
         + (IF w[4] = 0 THEN 0 ELSE FDiv(w[4], k2))
Weighted(w, g, a) == LET A == T!Dft(a) IN T!CMk(A.s, LAMBDA i : T!CScale(T!CAt(A, i), WeightOf(w, g, i)))

\* --- peak speed -------------------------------------------------------------------
Peak(w) == FSqrt(MaxS([k \in 1..Len(w[1].v) |-> SumS([c \in 1..Len(w) |-> FSq(w[c].v[k])])]))

\* --- one noise, two peak wave numbers ----------------------------------------------
\* log-normal densities with log-variance 1/4 and peaks m e^(j/4) and m differ by |k|^j, up to a constant
Size1(x) == Abs(x[1]) + Abs(x[2])
Modes(a, N) == LET A == T!Dft(a) IN [s |-> A.s, re |-> TLCEval([k \in 1..Len(A.re) |-> A.re[k] \div N]), im |-> TLCEval([k \in 1..Len(A.im) |-> A.im[k] \div N])]
RECURSIVE PowI(_, _)
PowI(x, j) == IF j = 0 THEN ONE ELSE FMul(x, PowI(x, j - 1))
Related(g, low, high, j, tol) ==
  LET N == Prod(g.n)
      top == MaxS([k \in 1..N |-> Fo!Wave2(g, Unrav(k - 1, g.n))])
      rel(k) == PowI(FSqrt(FDiv(Fo!Wave2(g, Unrav(k - 1, g.n)), top)), j)
      wt == TLCEval([k \in 1..N |-> rel(k)])
      A == TLCEval([c \in 1..Len(low) |-> LET M == Modes(low[c], N) IN
             [k \in 1..N |-> <<FMul(M.re[k], wt[k]), FMul(M.im[k], wt[k])>>]])
      B == TLCEval([c \in 1..Len(high) |-> LET M == Modes(high[c], N) IN [k \in 1..N |-> <<M.re[k], M.im[k]>>]])
      big == MaxS([c \in 1..Len(high) |-> MaxS([k \in 1..N |-> Size1(A[c][k])])])
      m == CHOOSE p \in (1..Len(high)) \X (1..N) : Size1(A[p[1]][p[2]]) = big
      a == big  b == Size1(B[m[1]][m[2]])
  IN  \A c \in 1..Len(high) : \A k \in 1..N : \A z \in 1..2 :
        Abs(FMul(FDiv(A[c][k][z], a), b) - B[c][k][z]) <= tol

\* --- natural logarithm, by 2 artanh((x-1)/(x+1)) on [3/4, 3/2) -------------------------
LN2 == 181704
RECURSIVE Artanh(_, _, _)
Artanh(t2, k, t) == IF k > 15 THEN 0 ELSE (t \div k) + Artanh(t2, k + 2, FMul(t, t2))
RECURSIVE FLn(_)
FLn(x) == IF x >= (3 * ONE) \div 2 THEN FLn(x \div 2) + LN2
          ELSE IF x < (3 * ONE) \div 4 THEN FLn(2 * x) - LN2
          ELSE LET y == FDiv(x - ONE, x + ONE) IN 2 * Artanh(FSq(y), 1, y)
\* expected logarithm of the power of a mode at wave number k (squared: k2), peak m, up to a constant
LogPower(lm, k2, nd) ==
  LET lk == FLn(k2) \div 2  x == lm + (ONE \div 4) - lk IN -(4 * FSq(x)) - 2 * lk - 2 * (nd - 1) * lk
=============================================================================
