------------------------------ MODULE Forcing ------------------------------
(* Body forces as terms: zero, linear, Kolmogorov, Taylor-Green, banded or   *)
(* weighted linear, and sums.  A force maps a velocity (sequence of located  *)
(* arrays on one grid) to one located array per component.                   *)
EXTENDS Trig

\* coordinate along axis d of element j at location o (quarter cells)
Pos(g, d, o, j) == g.lo[d] + ((4 * j + o) * (g.hi[d] - g.lo[d])) \div (4 * g.n[d])
\* the same measured in parts of a domain of length 2 pi
Turn(g, d, o, j) == ((4 * j + o) * TWOPI) \div (4 * g.n[d])
FaceLoc(nd, k) == [d \in 1..nd |-> IF d = k THEN 4 ELSE 2]
Faces(nd) == [k \in 1..nd |-> FaceLoc(nd, k)]
Loc(a, o) == [s |-> a.s, v |-> a.v, o |-> o]
ZeroA(g) == Const(g.n, 0)

Kolmo(e, g) ==
  LET nd == Len(g.n)  os == IF e.off = <<>> THEN Faces(nd) ELSE e.off
      d == IF e.swap THEN 2 ELSE 1            \* driven component
      x == IF e.swap THEN 1 ELSE 2            \* coordinate it varies along
  IN  [c \in 1..nd |->
        IF c # d THEN Loc(ZeroA(g), os[c])
        ELSE Loc(Mk(g.n, LAMBDA i : FMul(e.a, FSin(e.k * Pos(g, x, os[d][x], i[x])))), os[d])]
TGreen(e, g) ==
  LET nd == Len(g.n)  os == Faces(nd) IN
  [c \in 1..nd |->
    Loc(Mk(g.n, LAMBDA i :
      LET X == e.k * Turn(g, 1, os[c][1], i[1])  Y == e.k * Turn(g, 2, os[c][2], i[2])
      IN  IF c = 1 THEN FMul(e.a, FMul(FCos(X), FSin(Y)))
          ELSE IF c = 2 THEN -FMul(e.a, FMul(FSin(X), FCos(Y))) ELSE 0), os[c])]
Linear(e, v) == [c \in 1..Len(v) |-> Loc(Scale(v[c], e.c), v[c].o)]
\* does every term put component c at the same location?
Located(fs) == \A a \in 1..Len(fs) : \A c \in 1..Len(fs[1]) : fs[a][c].o = fs[1][c].o
Plus(fs) == [c \in 1..Len(fs[1]) |->
   Loc([s |-> fs[1][c].s, v |-> TLCEval([k \in 1..Len(fs[1][c].v) |-> SumS([a \in 1..Len(fs) |-> fs[a][c].v[k]])])], fs[1][c].o)]
RECURSIVE ForceOf(_, _, _)
ForceOf(e, g, v) ==
  CASE e.t = "zero" -> [c \in 1..Len(v) |-> Loc(ZeroA(g), v[c].o)]
    [] e.t = "lin"  -> Linear(e, v)
    [] e.t = "kol"  -> Kolmo(e, g)
    [] e.t = "tg"   -> TGreen(e, g)
    [] e.t = "sum"  -> Plus([a \in 1..Len(e.p) |-> ForceOf(e.p[a], g, v)])
RECURSIVE Admissible(_, _, _)
Admissible(e, g, v) ==
  IF e.t # "sum" THEN TRUE
  ELSE /\ \A a \in 1..Len(e.p) : Admissible(e.p[a], g, v)
       /\ Located([a \in 1..Len(e.p) |-> ForceOf(e.p[a], g, v)])

\* --- spectrally weighted linear forces -----------------------------------------
\* square of the ordinal wave number (waves per unit length) of mode i
Wave2(g, i) == SumS([d \in 1..Len(g.n) |-> FSq(FDiv(ONE * FreqOf(g.n[d], i[d]), g.hi[d] - g.lo[d]))])
MeanMode(i) == \A d \in 1..Len(i) : i[d] = 0
\* weight of a mode: band [lo, hi] (ordinal), or a + b |k| + c k^2 (angular)
Weight(e, g, i) ==
  IF MeanMode(i) THEN 0
  ELSE LET w2 == Wave2(g, i) IN
    IF e.t = "band" THEN (IF w2 >= FSq(e.lo) /\ w2 <= FSq(e.hi) THEN e.c ELSE 0)
    ELSE e.w[1] + FMul(e.w[2], FMul(TWOPI, FSqrt(w2))) + FMul(e.w[3], FMul(FMul(TWOPI, w2), TWOPI))
Edge(e, g, i) == e.t = "band" /\ LET w2 == Wave2(g, i) IN Abs(w2 - FSq(e.lo)) <= 64 \/ Abs(w2 - FSq(e.hi)) <= 64
Weighted(e, g, a) == LET A == Dft(a) IN CMk(A.s, LAMBDA i : CScale(CAt(A, i), Weight(e, g, i)))
SpecNear(e, g, a, out, tol) ==
  LET A == Dft(a)  B == Dft(out) IN
  \A k \in 1..Len(A.re) :
    LET i == Unrav(k - 1, A.s)  x == CAt(A, i)  y == CAt(B, i)
        nr(c) == LET z == CScale(x, c) IN Abs(z[1] - y[1]) <= tol /\ Abs(z[2] - y[2]) <= tol
    IN  nr(Weight(e, g, i)) \/ (~MeanMode(i) /\ Edge(e, g, i) /\ (nr(0) \/ nr(e.c)))

\* --- forcing applied in vorticity space (two dimensions, nodes) ------------------
VortForce(g, ku, kol, c, w) ==
  LET n == g.n[1]  m == g.n[2]
      what == HalfOf(Dft(w))
      part(d) == LET lin == CMk(what.s, LAMBDA i : CScale(CAt(Real2(VelHat(what, ku, d), n, m), i), c))
                 IN  IF kol.t = "zero" THEN lin ELSE CPlus(lin, HalfOf(Dft(Kolmo(kol, g)[d])))
  IN  Real2(CurlHat(part(1), part(2), ku), n, m)
=============================================================================
