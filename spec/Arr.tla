-------------------------------- MODULE Arr --------------------------------
(* Row-major n-dimensional arrays [s |-> shape, v |-> flat sequence], with   *)
(* 0-based index tuples and 1-based axis numbers.                            *)
EXTENDS Integers, Sequences, TLC, Fix, SequencesExt

Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)

Unrav(k, s) ==
  IF Len(s) = 2 THEN << k \div s[2], k % s[2] >>
  ELSE IF Len(s) = 1 THEN << k >>
  ELSE IF Len(s) = 3 THEN << k \div (s[2]*s[3]), (k \div s[3]) % s[2], k % s[3] >>
  ELSE IF Len(s) = 0 THEN << >>
  ELSE LET F[d \in 1..Len(s)] == (k \div Prod(SubSeq(s, d+1, Len(s)))) % s[d]
       IN  TLCEval([d \in 1..Len(s) |-> F[d]])

Rav(i, s) ==
  IF Len(s) = 2 THEN i[1]*s[2] + i[2]
  ELSE IF Len(s) = 1 THEN i[1]
  ELSE IF Len(s) = 3 THEN (i[1]*s[2] + i[2])*s[3] + i[3]
  ELSE FoldLeft(LAMBDA acc, d : acc * s[d] + i[d], 0, [d \in 1..Len(s) |-> d])

At(a, i) == a.v[Rav(i, a.s) + 1]

Mk(s, F(_)) ==
  [s |-> s, v |-> TLCEval([k \in 1..Prod(s) |-> F(Unrav(k - 1, s))])]

Const(s, c)  == [s |-> s, v |-> TLCEval([k \in 1..Prod(s) |-> c])]
Map1(a, F(_))      == [s |-> a.s, v |-> TLCEval([k \in 1..Len(a.v) |-> F(a.v[k])])]
Map2(a, b, F(_,_)) == [s |-> a.s, v |-> TLCEval([k \in 1..Len(a.v) |-> F(a.v[k], b.v[k])])]
Add(a, b)  == Map2(a, b, LAMBDA x, y : x + y)
Sub(a, b)  == Map2(a, b, LAMBDA x, y : x - y)
Neg(a)     == Map1(a, LAMBDA x : -x)
Scale(a, c) == Map1(a, LAMBDA x : FMul(x, c))
MulA(a, b) == Map2(a, b, LAMBDA x, y : FMul(x, y))
Arr2(a) == [s |-> a.s, v |-> a.v]

\* index tuple i with component ax replaced / moved
Set(i, ax, j) == [i EXCEPT ![ax] = j]
Mov(i, ax, d) == [i EXCEPT ![ax] = @ + d]

Line(a, i, ax) == TLCEval([j \in 1..a.s[ax] |-> At(a, Set(i, ax, j - 1))])

\* cyclic shift: Roll(a, ax, d)[i] = a[i + d]
Roll(a, ax, d) == Mk(a.s, LAMBDA i : At(a, Set(i, ax, (i[ax] + d) % a.s[ax])))
\* keep indices lo..hi-1 along ax
Cut(a, ax, lo, hi) == Mk([a.s EXCEPT ![ax] = hi - lo], LAMBDA i : At(a, Mov(i, ax, lo)))
\* negative index flip
Flip(a, ax) == Mk(a.s, LAMBDA i : At(a, Set(i, ax, a.s[ax] - 1 - i[ax])))

TotalA(a) == SumS(a.v)
MaxA(a) == MaxS(a.v)
MinA(a) == MinS(a.v)
MaxAbs(a) == MaxS([k \in 1..Len(a.v) |-> Abs(a.v[k])])

SameShape(a, b) == a.s = b.s
\* Near: shapes equal and element-wise within tol units of 2^-18
NearA(a, b, tol) ==
  /\ a.s = b.s
  /\ Len(a.v) = Len(b.v)
  /\ \A k \in 1..Len(a.v) : Abs(a.v[k] - b.v[k]) <= tol
EqA(a, b) == a.s = b.s /\ a.v = b.v
=============================================================================
