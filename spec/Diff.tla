-------------------------------- MODULE Diff --------------------------------
(* Difference operators on staggered fields.                                 *)
EXTENDS Interp

\* coordinate of element i of a field along axis d
Coord0(f, d, i) == f.g.lo[d] + i[d] * f.g.h[d] + (f.o[d] * f.g.h[d]) \div 4

Sh(f, ax, k) == ShiftAxis(f, ax, k, "extend")
MovLoc(o, ax, q) == [o EXCEPT ![ax] = @ + q]
\* difference quotients; the location is the midpoint of the two samples
Fwd(f, ax) == LET b == Sh(f, ax, 1) IN
  [f EXCEPT !.v = Map2(b, f, LAMBDA x, y : FMul(x - y, f.g.r[ax])).v, !.o = MovLoc(@, ax, 2)]
Bwd(f, ax) == LET b == Sh(f, ax, -1) IN
  [f EXCEPT !.v = Map2(f, b, LAMBDA x, y : FMul(x - y, f.g.r[ax])).v, !.o = MovLoc(@, ax, -2)]
Ctr(f, ax) == LET a == Sh(f, ax, 1)  b == Sh(f, ax, -1) IN
  [f EXCEPT !.v = Map2(a, b, LAMBDA x, y : FMul(x - y, f.g.r[ax]) \div 2).v]
Second(f, ax) == LET a == Sh(f, ax, 1)  b == Sh(f, ax, -1) r == f.g.r[ax] IN
  [f EXCEPT !.v = TLCEval([k \in 1..Len(f.v) |-> FMul(FMul(a.v[k] - 2 * f.v[k] + b.v[k], r), r)])]

Plus(f, h)  == [f EXCEPT !.v = TLCEval([k \in 1..Len(f.v) |-> f.v[k] + h.v[k]])]
Minus(f, h) == [f EXCEPT !.v = TLCEval([k \in 1..Len(f.v) |-> f.v[k] - h.v[k]])]
NegF(f)     == [f EXCEPT !.v = TLCEval([k \in 1..Len(f.v) |-> - f.v[k]])]
SumFields(q) == FoldLeft(Plus, q[1], Tail(q))

Laplace(f)  == SumFields([d \in 1..Len(f.o) |-> Second(f, d)])
Diverge(w)  == SumFields([d \in 1..Len(w) |-> Bwd(w[d], d)])
CDiverge(w) == SumFields([d \in 1..Len(w) |-> Ctr(w[d], d)])
Curl2(w) == Minus(Fwd(w[2], 1), Fwd(w[1], 2))
Curl3(w) == << Minus(Fwd(w[3], 2), Fwd(w[2], 3)), Minus(Fwd(w[1], 3), Fwd(w[3], 1)),
               Minus(Fwd(w[2], 1), Fwd(w[1], 2)) >>
\* one component of the cell-centred gradient
GradComp(f, ax) ==
  CASE f.o[ax] = 0 -> Fwd(f, ax)
    [] f.o[ax] = 4 -> Bwd(f, ax)
    [] OTHER -> Ctr(Linear(f, [d \in 1..Len(f.o) |-> 2]), ax)
GradVec(f) == TLCEval([d \in 1..Len(f.o) |-> GradComp(f, d)])
=============================================================================
