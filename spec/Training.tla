------------------------------ MODULE Training ------------------------------
(* Training and evaluation.  A batch is a list of components, each an array   *)
(* [time, batch, space...].  The model trained here predicts                  *)
(* a * component + b[component]; the optimiser is momentum descent with a     *)
(* step size that depends on the step number.                                 *)
EXTENDS Arr

SqSum(x, y) == SumS([k \in 1..Len(x.v) |-> LET d == x.v[k] - y.v[k] IN FMul(d, d)])
\* python axis and slice conventions
Ax(a, nd) == (IF a < 0 THEN a + nd ELSE a) + 1
Stop(n, T) == IF n = "none" THEN T ELSE IF n >= 0 THEN Min2(n, T) ELSE Max2(T + n, 0)
Firsts(x, ax, stop) == Cut(x, ax, 0, stop)
At1(x, ax, n) == Cut(x, ax, IF n < 0 THEN x.s[ax] + n ELSE n, (IF n < 0 THEN x.s[ax] + n ELSE n) + 1)

L2Cum(xs, ys, stop, scale, ax) ==
  SumS([c \in 1..Len(xs) |-> FMul(scale, SqSum(Firsts(xs[c], ax, stop), Firsts(ys[c], ax, stop)))])
L2One(xs, ys, n, scale, ax) ==
  SumS([c \in 1..Len(xs) |-> FMul(scale, SqSum(At1(xs[c], ax, n), At1(ys[c], ax, n)))])

\* cosine similarity of one example over components and space
Corr1(us, vs) ==
  LET d(p, q) == SumS([c \in 1..Len(p) |-> SumS([k \in 1..Len(p[c].v) |-> FMul(p[c].v[k], q[c].v[k])])])
  IN  FDiv(d(us, vs), FMul(FSqrt(d(us, us)), FSqrt(d(vs, vs))))
\* one time slice: mean of the similarity over the batch
CorrMean(xs, ys, n, tax, bax) ==
  LET pick(x, b) == Cut(At1(x, tax, n), bax, b, b + 1)
      B == xs[1].s[bax]
  IN  SumS([b \in 1..B |-> Corr1([c \in 1..Len(xs) |-> pick(xs[c], b - 1)], [c \in 1..Len(ys) |-> pick(ys[c], b - 1)])]) \div B

Predict(p, B) == [c \in 1..Len(B) |-> Map1(B[c], LAMBDA x : FMul(p.a, x) + p.b[c])]
LossOf(p, B, stop, scale) == L2Cum(Predict(p, B), B, stop, scale, 1)
GradOf(p, B, stop, scale) ==
  LET P == TLCEval([c \in 1..Len(B) |-> Firsts(Predict(p, B)[c], 1, stop)])
      T == TLCEval([c \in 1..Len(B) |-> Firsts(B[c], 1, stop)])
      r(c, k) == 2 * FMul(scale, P[c].v[k] - T[c].v[k])
  IN  [a |-> SumS([c \in 1..Len(B) |-> SumS([k \in 1..Len(T[c].v) |-> FMul(r(c, k), T[c].v[k])])]),
       b |-> TLCEval([c \in 1..Len(B) |-> SumS([k \in 1..Len(T[c].v) |-> r(c, k)])])]

Rate(step) == IF step % 2 = 0 THEN ONE \div 64 ELSE ONE \div 128
Update(step, g, os) ==
  LET m == [a |-> (os.m.a \div 2) + g.a, b |-> TLCEval([c \in 1..Len(g.b) |-> (os.m.b[c] \div 2) + g.b[c]])]
      h == Rate(step)
  IN  [p |-> [a |-> os.p.a - FMul(h, m.a), b |-> TLCEval([c \in 1..Len(g.b) |-> os.p.b[c] - FMul(h, m.b[c])])], m |-> m]

\* one training step from state [step, os]
Train1(ts, B, stop, scale) ==
  [step |-> ts.step + 1, os |-> Update(ts.step, GradOf(ts.os.p, B, stop, scale), ts.os)]
MeanOf(q) == SumS(q) \div Len(q)
=============================================================================
