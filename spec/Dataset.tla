------------------------------ MODULE Dataset ------------------------------
(* Stored flows and what is derived from them: labelled arrays, vorticity,    *)
(* energies, spectra, shell sums, ring means, correlations, error summaries.  *)
EXTENDS Forcing, FiniteSets

\* --- storing a trajectory ---------------------------------------------------------
Letters == <<"x", "y", "z">>
VelNames == <<"u", "v", "w">>
DimsOf(nd, samples) == (IF samples THEN <<"sample">> ELSE <<>>) \o <<"time">> \o SubSeq(Letters, 1, nd)
NamesOf(nd, ns, prefix) == [k \in 1..(nd + ns) |-> prefix \o (IF k <= ns THEN "c" ELSE VelNames[k - ns])]
CentreAxis(g, d) == [j \in 1..g.n[d] |-> Pos(g, d, 2, j - 1)]

\* --- pointwise diagnostics of one instant: w is a sequence of arrays ------------------
Spacing(g, d) == (g.hi[d] - g.lo[d]) \div g.n[d]
Vorticity(w, g) == LET a == Map2(Roll(w[2], 1, 1), w[2], LAMBDA x, y : FDiv(x - y, Spacing(g, 1)))
                       b == Map2(Roll(w[1], 2, 1), w[1], LAMBDA x, y : FDiv(x - y, Spacing(g, 2)))
                   IN  Map2(a, b, LAMBDA x, y : x - y)
Enstrophy(w, g) == LET z == Vorticity(w, g) IN Map1(z, LAMBDA x : FSq(x) \div 2)
Sum2(w) == [s |-> w[1].s, v |-> TLCEval([k \in 1..Len(w[1].v) |-> SumS([c \in 1..Len(w) |-> FSq(w[c].v[k])])])]
Speed(w) == Map1(Sum2(w), LAMBDA x : FSqrt(x))
Energy(w) == Map1(Sum2(w), LAMBDA x : x \div 2)

\* --- spectra: modes in ascending order, -floor(n/2) first -------------------------------
Ascending(n) == [j \in 1..n |-> (j - 1) - (n \div 2)]
KVal(g, d, j) == FDiv(Ascending(g.n[d])[j] * TWOPI, g.hi[d] - g.lo[d])
Shifted(n, i) == [d \in 1..Len(n) |-> (i[d] - (n[d] \div 2)) % n[d]]
Spectrum(w) ==
  LET A == TLCEval([c \in 1..Len(w) |-> Dft(w[c])]) IN
  Mk(w[1].s, LAMBDA i : LET q == Shifted(w[1].s, i) IN
     SumS([c \in 1..Len(w) |-> LET z == CAt(A[c], q) IN (FSq(z[1]) + FSq(z[2])) \div 2]))

\* --- sums over shells of wave numbers ---------------------------------------------------
FreqSq(n, L, i) == SumS([d \in 1..Len(n) |-> FSq(FDiv(ONE * (i[d] - (n[d] \div 2)), L[d]))])
MinL(L) == MinS(L)
Half2(j, L) == FSq(FDiv((2 * j + 1) * HALF, MinL(L)))      \* ((j + 1/2) / L)^2
\* largest wave number kept along every axis, in units of the largest spacing (rounded down)
TopUnits(n, L) == MinS([d \in 1..Len(n) |-> FDiv(ONE * ((n[d] - 1) \div 2), FDiv(L[d], MinL(L)))])
ShellOk(E, n, L, j, got, tol) ==
  LET ks == 1..Len(E.v)
      qs == TLCEval([k \in ks |-> FreqSq(n, L, Unrav(k - 1, n))])
      q(k) == qs[k]
      lo == Half2(j - 1, L)  hi == Half2(j, L)
      sure == TLCEval({k \in ks : q(k) > lo + 64 /\ q(k) < hi - 64})
      maybe == TLCEval({k \in ks : Abs(q(k) - lo) <= 64 \/ Abs(q(k) - hi) <= 64})
      s(S) == SumS([k \in 1..Len(E.v) |-> IF k \in S THEN E.v[k] ELSE 0])
  IN  got >= s(sure) - tol /\ got <= s(sure \cup maybe) + tol
\* how many shells there may be: within half a spacing of the largest wave number, rounding either way
CountOk(n, L, m) == LET t == TopUnits(n, L) IN m * ONE >= t - ONE - 16 /\ m * ONE <= t + 16

\* --- means over rings: bilinear in the logarithm ------------------------------------------
Corner(lg, n, a, b) == At(lg, <<a + (n[1] \div 2), b + (n[2] \div 2)>>)
\* value at (x, y), in units of the spacing of modes, between the four modes around it
Blend(lg, n, x, y) ==
  LET a == x \div ONE  b == y \div ONE  p == x % ONE  q == y % ONE
      w == TLCEval(<<FMul(ONE - p, ONE - q), FMul(p, ONE - q), FMul(ONE - p, q), FMul(p, q)>>)
      c(da, db, v) == IF v = 0 THEN 0 ELSE FMul(v, Corner(lg, n, a + da, b + db))
  IN  c(0, 0, w[1]) + c(1, 0, w[2]) + c(0, 1, w[3]) + c(1, 1, w[4])
Snap(x) == LET r == (x + HALF) \div ONE IN IF Abs(x - r * ONE) <= 8 THEN r * ONE ELSE x
\* cosines and sines of nq equally spaced angles
Circle(nq) == TLCEval([t \in 1..nq |-> TLCEval(<<FCos((TWOPI * (t - 1)) \div nq), FSin((TWOPI * (t - 1)) \div nq)>>)])
\* lg: minus the logarithm of the spectrum
Ring(lg, n, L, j, cs) ==
  LET nq == Len(cs)
      r == TLCEval(<<j * FDiv(L[1], MinL(L)), j * FDiv(L[2], MinL(L))>>)
      pts == TLCEval([t \in 1..nq |-> TLCEval(<<Snap(FMul(cs[t][1], r[1])), Snap(FMul(cs[t][2], r[2]))>>)])
      val == TLCEval([t \in 1..nq |-> Blend(lg, n, pts[t][1], pts[t][2])])
      ex == TLCEval([t \in 1..nq |-> FExpNeg(val[t])])
  IN  FMul(FDiv(j * TWOPI, MinL(L)), FMul(TWOPI, SumS(ex) \div nq))

\* --- correlations ---------------------------------------------------------------------------
AutoCorr(a, ax) == LET n == a.s[ax] IN
  Mk([a.s EXCEPT ![ax] = n \div 2], LAMBDA i :
     SumS([x \in 1..n |-> FMul(At(a, [i EXCEPT ![ax] = x - 1]), At(a, [i EXCEPT ![ax] = (x - 1 + i[ax]) % n]))]) \div n)
TimeCorr(u, d) == LET T == Len(u) IN SumS([t \in 1..T |-> IF t - 1 >= d THEN FMul(u[t - d], u[t]) ELSE 0]) \div T
Norm(v) == FSqrt(SumS([k \in 1..Len(v) |-> FSq(v[k])]))
Unit(v) == LET m == Norm(v) IN [k \in 1..Len(v) |-> FDiv(v[k], m)]
Dot(a, b) == SumS([k \in 1..Len(a) |-> FMul(a[k], b[k])])
Mean(v) == SumS(v) \div Len(v)

\* --- natural logarithm ---------------------------------------------------------------------
LN2 == 181704
RECURSIVE Artanh(_, _, _)
Artanh(t2, k, t) == IF k > 15 THEN 0 ELSE (t \div k) + Artanh(t2, k + 2, FMul(t, t2))
RECURSIVE FLn(_)
FLn(x) == IF x >= (3 * ONE) \div 2 THEN FLn(x \div 2) + LN2
          ELSE IF x < (3 * ONE) \div 4 THEN FLn(2 * x) - LN2
          ELSE LET y == FDiv(x - ONE, x + ONE) IN 2 * Artanh(FSq(y), 1, y)
\* distance between positive curves: logarithms where the truth is above the threshold, and
\* the size of what should not be there
LogDistance(a, g, th) == SumS([k \in 1..Len(a) |->
   (IF g[k] > th THEN Abs(FLn(a[k]) - FLn(g[k])) ELSE 0) + (IF a[k] > th /\ g[k] < th THEN Abs(FLn(a[k])) ELSE 0)])
Distance(a, g, th) == SumS([k \in 1..Len(a) |->
   (IF Abs(g[k]) > th THEN Abs(a[k] - g[k]) ELSE 0) + (IF Abs(a[k]) > th /\ Abs(g[k]) < th THEN Abs(a[k]) ELSE 0)])
\* quantile with linear interpolation between order statistics
SortSeqUp(q) == SortSeq(q, LAMBDA x, y : x < y)
Quantile(v, q) == LET z == SortSeqUp(v)  p == q * (Len(v) - 1)  j == p \div ONE  w == p % ONE IN
   IF w = 0 THEN z[j + 1] ELSE z[j + 1] + FMul(w, z[j + 2] - z[j + 1])

\* --- pictures ---------------------------------------------------------------------
\* A picture is [w |-> width, h |-> height, v |-> colours row by row].
Colour(x, lo, hi) == LET t == ((x - lo) * 256) \div (hi - lo) IN IF t < 0 THEN 0 ELSE IF t > 255 THEN 255 ELSE t
\* the colour shown for a value, up to rounding of the value
ShowsValue(c, x, lo, hi, tol) == c >= Colour(x - tol, lo, hi) /\ c <= Colour(x + tol, lo, hi)
Pixel(p, r, c) == p.v[r * p.w + c + 1]
NearestInt(z) == {(z + HALF) \div ONE, -((HALF - z) \div ONE)}
\* picture o is picture p stretched until its longest side has the requested length; each pixel shows the one under its centre
Covered(j, n, m) == LET a == (2 * j + 1) * n  b == 2 * m IN {a \div b} \cup (IF a % b = 0 THEN {(a \div b) - 1} ELSE {})
StretchOk(o, w, h, longest, Shows(_, _, _)) ==
  LET big == IF w > h THEN w ELSE h IN
  /\ o.w \in NearestInt((w * longest * ONE) \div big) /\ o.h \in NearestInt((h * longest * ONE) \div big)
  /\ \A r \in 0..(o.h - 1) : \A c \in 0..(o.w - 1) :
        \E y \in Covered(r, h, o.h) : \E x \in Covered(c, w, o.w) : Shows(Pixel(o, r, c), y, x)
\* pictures side by side with a strip between neighbours
Facet(ps, s, strip) ==
  LET w == ps[1].w  h == ps[1].h  k == Len(ps)  W == k * w + (k - 1) * s
  IN  [w |-> W, h |-> h,
       v |-> [t \in 1..(W * h) |-> LET c == (t - 1) % W  r == (t - 1) \div W  b == c \div (w + s)  x == c % (w + s)
                                   IN  IF x < w THEN Pixel(ps[b + 1], r, x) ELSE strip]]
=============================================================================
