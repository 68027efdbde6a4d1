------------------------------- MODULE LinOp -------------------------------
(* Sums of one-dimensional operators, discrete potentials and the relations  *)
(* that characterise the solutions of elliptic and implicit problems.        *)
EXTENDS Diff, Check

\* (M acting along axis ax of b)[i] = sum_j M[i_ax][j] b[.., j, ..]
Along(M, b, ax) == Mk(b.s, LAMBDA i : SumS([j \in 1..b.s[ax] |-> FMul(M[i[ax] + 1][j], At(b, Set(i, ax, j - 1)))]))
SumApply(ops, b) == LET p == TLCEval([d \in 1..Len(ops) |-> Along(ops[d], b, d)])
                    IN  FoldLeft(Add, p[1], Tail(p))

\* does p (relative position q quarter cells along ax) lie strictly inside, off every wall
OffWallAt(f, i) == \A d \in 1..Len(i) : LET p == f.o[d] + 4 * i[d] IN
                     f.bc.t[d][1] = "P" \/ (p > 0 /\ p < 4 * f.g.n[d])
OnWall(f, i, d) == LET p == f.o[d] + 4 * i[d] IN f.bc.t[d][1] = "D" /\ (p = 0 \/ p = 4 * f.g.n[d])
WallVal(f, i, d) == IF f.o[d] + 4 * i[d] = 0 THEN f.bc.b[d][1] ELSE f.bc.b[d][2]
\* every value that lies on a Dirichlet wall is the prescribed one (of one of its walls)
WallsRespected(f, tol) == \A k \in 1..Len(f.v) : LET i == Unrav(k - 1, f.s) W == {d \in 1..Len(i) : OnWall(f, i, d)}
                     IN W = {} \/ \E d \in W : Abs(f.v[k] - WallVal(f, i, d)) <= tol

\* A potential whose differences along the lower edges of the grid are those of
\* the face field w: q[0] = 0, integrate along the last axis, then the others.
RECURSIVE PotAt(_, _, _)
PotAt(w, i, d) ==  \* sum of w[d] along axis d from 0 to i[d] with later axes at i and earlier at 0
  IF d > Len(i) THEN 0
  ELSE LET base == [e \in 1..Len(i) |-> IF e < d THEN i[e] ELSE IF e = d THEN 0 ELSE 0]
       IN  SumS([j \in 1..i[d] |-> FMul(w[d].g.h[d], At(w[d], [base EXCEPT ![d] = j - 1]))]) + PotAt(w, i, d + 1)
Potential(w) == Mk(w[1].g.n, LAMBDA i : PotAt(w, i, 1))
\* is the face field w (component d at the upper face of axis d) the difference of one scalar,
\* at every face that is not on a wall
IsGradient(w0, tol) ==
  LET w == TLCEval(w0)  q == Potential(w) IN
  \A d \in 1..Len(w) : \A k \in 1..Len(w[d].v) :
    LET i == Unrav(k - 1, w[d].s)  n == w[d].g.n[d]
        last == i[d] = n - 1
    IN  (last /\ w[d].bc.t[d][1] # "P")
        \/ Abs(FMul(w[d].v[k], w[d].g.h[d]) - (At(q, Set(i, d, (i[d] + 1) % n)) - At(q, i))) <= tol
=============================================================================
