------------------------------- MODULE Grids -------------------------------
(* Grids, locations and the algebra of fields.                              *)
EXTENDS Boundary

ND(g) == Len(g.n)
\* domain, step and shape always agree
Coherent(g, tol) == \A d \in 1..ND(g) :
   /\ Abs((g.hi[d] - g.lo[d]) - g.n[d] * g.h[d]) <= tol
   /\ g.h[d] > 0 /\ g.n[d] > 0
\* coordinate of element j for location o (quarter cells)
Coord(g, d, o, j) == g.lo[d] + j * g.h[d] + (o * g.h[d]) \div 4
Centre(nd) == [d \in 1..nd |-> 2]
Face(nd, k) == [d \in 1..nd |-> IF d = k THEN 4 ELSE 2]
\* integer frequency of position j in a transform of length n, and of a half transform
Freq(n, j)  == IF 2 * j < n THEN j ELSE j - n
RFreq(n, j) == j
RLen(n) == n \div 2 + 1

\* element-wise arithmetic on registers
Bin(op, x, y) ==
  CASE op = "add" -> x + y
    [] op = "sub" -> x - y
    [] op = "mul" -> FMul(x, y)
    [] op = "max" -> Max2(x, y)
    [] op = "min" -> Min2(x, y)
    [] op = "gt"  -> IF x > y THEN ONE ELSE 0
    [] op = "le"  -> IF x <= y THEN ONE ELSE 0
    [] op = "eq"  -> IF x = y THEN ONE ELSE 0
    [] op = "fdiv" -> (IF y = 0 THEN 0 ELSE (x \div y) * ONE)
    [] op = "mod"  -> (IF y <= 0 THEN 0 ELSE x % y)
Un(op, x) ==
  CASE op = "neg" -> -x
    [] op = "abs" -> Abs(x)
    [] op = "sq"  -> FMul(x, x)
    [] op = "half" -> x \div 2
    [] op = "sign" -> Sgn(x) * ONE
    [] op = "pos" -> x
SameTag(a, b) == a.o = b.o /\ a.g = b.g
\* mean of locations, in quarter cells (999 = off lattice)
MeanLoc(os) == LET n == Len(os) IN
  [d \in 1..Len(os[1]) |->
     LET t == SumS([k \in 1..n |-> os[k][d]]) IN IF t % n = 0 THEN t \div n ELSE 999]

PressureTypes(ts, nd) ==
  [d \in 1..nd |-> IF ts[1][d][1] = "P" THEN <<"P", "P">> ELSE <<"N", "N">>]
=============================================================================
