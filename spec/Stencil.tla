------------------------------- MODULE Stencil -------------------------------
(* Polynomial accuracy of stencil coefficients.                               *)
(* A stencil is a sequence of 1-D point lists (fixed point).  Coefficients    *)
(* are listed in row-major order of the points.  They approximate the         *)
(* derivative of the given order per axis, at the origin, to an accuracy      *)
(* order when they reproduce it on every monomial of low enough degree.       *)
EXTENDS Conv

Fact(n) == IF n <= 1 THEN 1 ELSE n * (IF n = 2 THEN 1 ELSE IF n = 3 THEN 2 ELSE IF n = 4 THEN 6 ELSE 24)
RECURSIVE PowF(_, _)
PowF(x, n) == IF n = 0 THEN ONE ELSE FMul(x, PowF(x, n - 1))

\* value seen by a cell at x for the monomial of degree m: point or cell mean
Moment(x, m, fv, h) ==
  IF ~fv THEN PowF(x, m)
  ELSE \* ((x + h/2)^(m+1) - (x - h/2)^(m+1)) / (h (m+1)) = sum over even q of C(m,q) x^(m-q) (h/2)^q / (q+1)
    LET C(n, q) == Fact(n) \div (Fact(q) * Fact(n - q))
    IN  SumS([q2 \in 1..((m \div 2) + 1) |->
          LET q == 2 * (q2 - 1)
          IN  (C(m, q) * FMul(PowF(x, m - q), PowF(h \div 2, q))) \div (q + 1)])

Degree(ord, acc) == acc + SumS(ord) - 1
RECURSIVE ExpSet(_, _)
ExpSet(deg, nd) == IF nd = 0 THEN {<<>>}
                   ELSE UNION {{<<d>> \o q : q \in ExpSet(deg - d, nd - 1)} : d \in 0..deg}

\* the conditions, as a set of (row of moments, right-hand side)
Rows(st, fv, ord, acc, h) ==
  LET nd == Len(st)
      ks == TLCEval(Tuples([d \in 1..nd |-> Len(st[d])]))
      row(e) == [q \in 1..Len(ks) |->
        FoldLeft(LAMBDA a, d : FMul(a, Moment(st[d][ks[q][d] + 1], e[d], fv, h)), ONE, [d \in 1..nd |-> d])]
      rhs(e) == IF e = ord THEN FInt(FoldLeft(LAMBDA a, d : a * Fact(ord[d]), 1, [d \in 1..nd |-> d])) ELSE 0
  IN  {<<row(e), rhs(e)>> : e \in ExpSet(Degree(ord, acc), nd)}

Dot(a, b) == SumS([k \in 1..Len(a) |-> FMul(a[k], b[k])])
\* residual tolerance grows with the moments and the coefficients involved
Tol(row, c) == 24 + (SumS([k \in 1..Len(row) |-> (Abs(row[k]) \div 65536) + (Abs(c[k]) \div 65536)]))
Satisfies(c, rows) == \A q \in rows : Abs(Dot(c, q[1]) - q[2]) <= Tol(q[1], c)
Consistent(rows) == \A a, b \in rows : a[1] = b[1] => a[2] = b[2]

\* rank of a list of rows, by elimination with pivoting on the largest entry
RowMax(row) == MaxS([k \in 1..Len(row) |-> Abs(row[k])])
RECURSIVE Rank(_, _)
Rank(M, eps) ==
  IF Len(M) = 0 THEN 0
  ELSE LET best == CHOOSE p \in 1..Len(M) : \A q \in 1..Len(M) : RowMax(M[q]) <= RowMax(M[p])
           mx == RowMax(M[best])
       IN  IF mx <= eps THEN 0
           ELSE LET col == CHOOSE c \in 1..Len(M[1]) : Abs(M[best][c]) = mx
                    rest == SelectSeq([q \in 1..Len(M) |-> q], LAMBDA q : q # best)
                    red(q) == LET f == FDiv(M[q][col], M[best][col])
                              IN  [c \in 1..Len(M[q]) |-> IF c = col THEN 0 ELSE M[q][c] - FMul(f, M[best][c])]
                IN  1 + Rank(TLCEval([k \in 1..Len(rest) |-> red(rest[k])]), eps)
Normed(row) == LET mx == RowMax(row) IN IF mx <= 16 THEN row ELSE [k \in 1..Len(row) |-> FDiv(row[k], mx)]
RankOf(rows) == LET rr == SetToSeq({Normed(q[1]) : q \in rows}) IN Rank(rr, 512)

(* --- placement: a stencil of k points around the target -------------------- *)
FloorF(x) == x \div ONE                         \* floor for fixed point
Shift(i, t) == [d \in 1..Len(i) |-> FloorF(t[d] - i[d])]
Frac(i, t)  == [d \in 1..Len(i) |-> (t[d] - i[d]) % ONE]
StencilOf(sizes, frac, h) ==
  [d \in 1..Len(sizes) |-> [q \in 1..sizes[d] |-> FMul(FInt(PatchLow(sizes[d]) + q - 1) - frac[d], h)]]

\* weighted sums over the stencil of every cell; c is [cells..., stencil]
Weighted(x, c, sizes, i, t) ==
  LET nd == Len(sizes)
      ks == TLCEval(Tuples(sizes))
      sh == Shift(i, t)
  IN  Mk(x.s, LAMBDA j :
        SumS([q \in 1..Len(ks) |->
          FMul(At(c, j \o <<q - 1>>),
               At(x, [d \in 1..nd |-> (j[d] + sh[d] + ks[q][d] + PatchLow(sizes[d])) % x.s[d]]))]))
CoefAt(c, j, n) == [q \in 1..n |-> c.v[(j - 1) * n + q]]
=============================================================================
