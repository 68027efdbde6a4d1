------------------------------ MODULE ArrUtil ------------------------------
(* Slicing, splitting, reducing, tabulated interpolation, orthonormal bases. *)
EXTENDS Arr

NormAxis(ax, nd) == IF ax < 0 THEN ax + nd + 1 ELSE ax + 1     \* Python axis -> 1-based
\* positions selected by start:stop:step on n elements; absent parts are << >>
SliceSeq(n, start, stop, step) ==
  LET st == IF step = << >> THEN 1 ELSE step[1]
      Clip(x, lo, hi) == Max2(lo, Min2(hi, x))
      Wrap(x) == IF x < 0 THEN x + n ELSE x
      a == IF start = << >> THEN (IF st > 0 THEN 0 ELSE n - 1)
           ELSE IF st > 0 THEN Clip(Wrap(start[1]), 0, n) ELSE Clip(Wrap(start[1]), -1, n - 1)
      b == IF stop = << >> THEN (IF st > 0 THEN n ELSE -1)
           ELSE IF st > 0 THEN Clip(Wrap(stop[1]), 0, n) ELSE Clip(Wrap(stop[1]), -1, n - 1)
      m == IF st > 0 THEN (IF b > a THEN (b - a + st - 1) \div st ELSE 0)
           ELSE (IF a > b THEN (a - b + (-st) - 1) \div (-st) ELSE 0)
  IN  [k \in 1..m |-> a + (k - 1) * st]
Take(a, ax, q) == Mk([a.s EXCEPT ![ax] = Len(q)], LAMBDA i : At(a, Set(i, ax, q[i[ax] + 1])))
Drop(q, ax) == SubSeq(q, 1, ax - 1) \o SubSeq(q, ax + 1, Len(q))
Insert(q, ax, x) == SubSeq(q, 1, ax - 1) \o <<x>> \o SubSeq(q, ax, Len(q))
Pick(a, ax, j) == [s |-> Drop(a.s, ax), v |-> Take(a, ax, <<j>>).v]
PickAt(a, ax, j) == Pick(a, ax, IF j < 0 THEN j + a.s[ax] ELSE j)
Concat(a, b, ax) ==
  Mk([a.s EXCEPT ![ax] = @ + b.s[ax]],
     LAMBDA i : IF i[ax] < a.s[ax] THEN At(a, i) ELSE At(b, Mov(i, ax, -a.s[ax])))
RECURSIVE ConcatAll(_, _, _)
ConcatAll(q, ax, k) == IF k = 1 THEN q[1] ELSE Concat(ConcatAll(q, ax, k - 1), q[k], ax)

Reduce(name, q) ==
  CASE name = "sum" -> SumS(q) [] name = "mean" -> SumS(q) \div Len(q)
    [] name = "max" -> MaxS(q) [] name = "min" -> MinS(q)
    [] name = "first" -> q[1] [] name = "last" -> q[Len(q)]
Blocks(a, b, name) ==
  Mk([d \in 1..Len(a.s) |-> a.s[d] \div b[d]],
     LAMBDA i : Reduce(name, [k \in 1..Prod(b) |->
        At(a, [d \in 1..Len(a.s) |-> i[d] * b[d] + Unrav(k - 1, b)[d]])]))

\* --- one-dimensional tabulated interpolation --------------------------------
NAN == 536870912
\* order of the nodes
RECURSIVE Ranked(_, _)
Ranked(x, S) == IF S = {} THEN << >>
  ELSE LET m == CHOOSE k \in S : \A j \in S : x[k] <= x[j] IN <<m>> \o Ranked(x, S \ {m})
\* y is the sequence of table values, both already in increasing order of x
Interp1(x, y, q, mode, fill) ==
  LET n == Len(x)
      below == CHOOSE k \in 1..(n-1) : (k = 1 \/ x[k] <= q) /\ (k = n - 1 \/ q < x[k+1])
      qq == IF mode = "constant_extrapolate" THEN Max2(x[1], Min2(x[n], q)) ELSE q
      lin == y[below] + FMul(qq - x[below], FDiv(y[below+1] - y[below], x[below+1] - x[below]))
  IN  IF mode = "fill" /\ (q < x[1] \/ q > x[n]) THEN fill ELSE lin
Table(xs, a, ax, qs, mode, fill) ==    \* qs: array of queries
  LET p == Ranked(xs, 1..Len(xs))
      x == [k \in 1..Len(xs) |-> xs[p[k]]]
      b == Take(a, ax, [k \in 1..Len(xs) |-> p[k] - 1])
      m == Len(qs.s)
      sh == SubSeq(a.s, 1, ax - 1) \o qs.s \o SubSeq(a.s, ax + 1, Len(a.s))
  IN  Mk(sh, LAMBDA i :
        LET q == qs.v[Rav(SubSeq(i, ax, ax + m - 1), qs.s) + 1]
            pre == SubSeq(i, 1, ax - 1)  post == SubSeq(i, ax + m, Len(i))
        IN  Interp1(x, [k \in 1..Len(x) |-> At(b, pre \o <<k - 1>> \o post)], q, mode, fill))

\* --- orthonormal factorisation ------------------------------------------------
MatMul(a, b) == Mk(<<a.s[1], b.s[2]>>, LAMBDA i : SumS([k \in 1..a.s[2] |-> FMul(At(a, <<i[1], k - 1>>), At(b, <<k - 1, i[2]>>))]))
Transpose(a) == Mk(<<a.s[2], a.s[1]>>, LAMBDA i : At(a, <<i[2], i[1]>>))
Eye(n) == Mk(<<n, n>>, LAMBDA i : IF i[1] = i[2] THEN ONE ELSE 0)
QRBad(a, q, r, tol) ==
  LET n == a.s[2] IN
  (IF q.s # a.s \/ r.s # <<n, n>> THEN {"size"} ELSE
   (IF NearA(MatMul(Transpose(q), q), Eye(n), tol) THEN {} ELSE {"orthonormal"})
   \cup (IF NearA(MatMul(q, r), Arr2(a), tol) THEN {} ELSE {"product"})
   \cup (IF \A i \in 0..(n-1) : \A j \in 0..(n-1) : i > j => Abs(At(r, <<i, j>>)) <= tol THEN {} ELSE {"triangular"})
   \cup (IF \A i \in 0..(n-1) : At(r, <<i, i>>) >= 0 THEN {} ELSE {"diagonal"}))
=============================================================================
