------------------------------- MODULE Interp -------------------------------
(* Interpolation between locations of a staggered grid.                      *)
EXTENDS Boundary

\* --- linear: one axis at a time, weights in quarters ---
LinearAxis(f, ax, to) ==
  LET q == to - f.o[ax]  fl == q \div 4  m == q % 4
      o2 == [f.o EXCEPT ![ax] = to]
  IN IF q = 0 THEN f
     ELSE IF m = 0 THEN LET a == ShiftAxis(f, ax, fl, "extend") IN [f EXCEPT !.v = a.v, !.s = a.s, !.o = o2]
     ELSE LET A == ShiftAxis(f, ax, fl, "extend")  B == ShiftAxis(f, ax, fl + 1, "extend")
              c == Map2(A, B, LAMBDA x, y : ((4 - m) * x + m * y) \div 4)
          IN  [f EXCEPT !.v = c.v, !.s = c.s, !.o = o2]
RECURSIVE LinearFrom(_, _, _)
LinearFrom(f, ax, to) == IF ax > Len(f.o) THEN f ELSE LinearFrom(LinearAxis(f, ax, to[ax]), ax + 1, to)
Linear(f, to) == LinearFrom(f, 1, to)

\* --- donor-cell family: lower and upper neighbours of the target face ---
Differing(a, b) == {d \in 1..Len(a) : a[d] # b[d]}
FloorQ(q) == q \div 4
CeilQ(q)  == (q + 3) \div 4

UpwindVals(f, ax, u) ==      \* <<donor for positive velocity, donor for negative>>
  LET q == u.o[ax] - f.o[ax]
  IN << ShiftAxis(f, ax, FloorQ(q), "extend"), ShiftAxis(f, ax, CeilQ(q), "extend") >>
Upwind(f, ax, u) ==
  LET p == UpwindVals(f, ax, u)
  IN  [s |-> p[1].s, v |-> TLCEval([k \in 1..Len(p[1].v) |-> IF u.v[k] > 0 THEN p[1].v[k] ELSE p[2].v[k]])]

\* Lax-Wendroff: donor value plus half of (1 - |Courant|) of the jump
LaxWendroff(f, ax, u, dt) ==
  LET p == UpwindVals(f, ax, u)
      cn(x) == FMul(FMul(dt, f.g.r[ax]), x)
  IN  [s |-> p[1].s, v |-> TLCEval([k \in 1..Len(p[1].v) |->
        LET F == p[1].v[k]  C == p[2].v[k]  c == cn(u.v[k])
        IN  IF u.v[k] > 0 THEN F + FMul(ONE - c, C - F) \div 2
            ELSE C - FMul(ONE + c, C - F) \div 2])]

\* --- limited schemes ---
Limiter(name, r) ==
  CASE name = "van_leer" -> IF r > 0 THEN FDiv(2 * r, ONE + r) ELSE 0
    [] name = "minmod"   -> Max2(0, Min2(r, ONE))
    [] name = "superbee" -> Max2(0, Max2(Min2(2 * r, ONE), Min2(r, 2 * ONE)))
    [] name = "zero"     -> 0
    [] name = "one"      -> ONE
\* ratio of neighbouring slopes; beyond 4000 every limiter has levelled off
SafeDiv(x, y) == IF y = 0 THEN x
  ELSE IF Abs(x) \div Abs(y) >= 4000 THEN Sgn(x) * Sgn(y) * 4000 * ONE
  ELSE FDiv(x, y)

\* value at the face ax+1/2 of a limited scheme; hi is the high-order face value
Limited(f, ax, u, hi, name) ==
  LET low == Upwind(f, ax, u)
      L == ShiftAxis(f, ax, -1, "extend")  R == ShiftAxis(f, ax, 1, "extend")  RR == ShiftAxis(f, ax, 2, "extend")
  IN  [s |-> low.s, v |-> TLCEval([k \in 1..Len(low.v) |->
        LET d == R.v[k] - f.v[k]
            r == IF u.v[k] > 0 THEN SafeDiv(f.v[k] - L.v[k], d) ELSE SafeDiv(RR.v[k] - R.v[k], d)
        IN  low.v[k] - FMul(low.v[k] - hi.v[k], Limiter(name, r))])]

\* --- interpolation at a point ---
\* fold an integer index into 0..n-1; -1 when it falls on the constant extension
FoldIndex(mode, j, n) ==
  LET Mirror(i, m) == IF m = 1 THEN 0 ELSE Abs(((i + (m - 1)) % (2 * (m - 1))) - (m - 1))
  IN CASE mode = "nearest"  -> Max2(0, Min2(n - 1, j))
       [] mode = "wrap"     -> j % n
       [] mode = "mirror"   -> Mirror(j, n)
       [] mode = "reflect"  -> (Mirror(2 * j + 1, 2 * n + 1) - 1) \div 2
       [] mode = "constant" -> IF j < 0 \/ j > n - 1 THEN -1 ELSE j

RECURSIVE PointFrom(_, _, _, _, _, _, _)
PointFrom(f, ax, idx, coord, mode, cval, order) ==
  IF ax > Len(f.s) THEN (IF \E d \in 1..Len(idx) : idx[d] < 0 THEN cval ELSE At(f, idx))
  ELSE LET c == coord[ax] IN
    IF order = 0
    THEN PointFrom(f, ax + 1, Append(idx, FoldIndex(mode, (c + HALF) \div ONE, f.s[ax])), coord, mode, cval, order)
    ELSE LET j == c \div ONE  w == c % ONE
             A == PointFrom(f, ax + 1, Append(idx, FoldIndex(mode, j, f.s[ax])), coord, mode, cval, order)
             B == PointFrom(f, ax + 1, Append(idx, FoldIndex(mode, j + 1, f.s[ax])), coord, mode, cval, order)
         IN  FMul(ONE - w, A) + FMul(w, B)
PointCoord(f, p) == [d \in 1..Len(f.s) |-> FMul(p[d] - f.g.lo[d], f.g.r[d]) - (f.o[d] * ONE) \div 4]
PointInterp(f, p, mode, cval, order) == PointFrom(f, 1, << >>, PointCoord(f, p), mode, cval, order)
=============================================================================
