------------------------------- MODULE Resize -------------------------------
(* Coarse-graining of fields.                                                *)
EXTENDS Interp

\* sum of F over all index tuples of a box of shape b (0-based)
BoxSum(b, F(_)) == SumS([k \in 1..Prod(b) |-> F(Unrav(k - 1, b))])

\* velocity component along dir: the coarse value is the mean over the coarse
\* face, made of the fine faces on its upper side
FaceMean(a, dir, fac) ==
  LET nd == Len(a.s)
      blk == [d \in 1..nd |-> IF d = dir THEN 1 ELSE fac]
  IN  Mk([d \in 1..nd |-> a.s[d] \div fac],
         LAMBDA i : BoxSum(blk, LAMBDA j :
            At(a, [d \in 1..nd |-> IF d = dir THEN (i[d] + 1) * fac - 1 ELSE i[d] * fac + j[d]]))
            \div Prod(blk))
\* plain block mean
CellMean(a, blk) ==
  LET nd == Len(a.s) IN
  Mk([d \in 1..nd |-> a.s[d] \div blk[d]],
     LAMBDA i : BoxSum(blk, LAMBDA j : At(a, [d \in 1..nd |-> i[d] * blk[d] + j[d]])) \div Prod(blk))

\* grid g with axis ax resized to m cells
Regrid(g, ax, m) ==
  LET k == g.n[ax] \div m IN
  [g EXCEPT !.n[ax] = m, !.h[ax] = @ * k, !.r[ax] = @ \div k]

\* top-hat along one axis: F cells wide box, every fac-th result.  The centred
\* data is extended by mirroring; edge e sees the F cells around it.
TopHatAxis(f, ax, F, fac, off) ==
  LET n == f.g.n[ax]
      p == PadAxis(PadAxis(f, ax, F \div 2, "mirror"), ax, -(F \div 2), "mirror")
      m == n \div fac
      first == IF F = 1 THEN 0 ELSE IF off = 0 THEN 0 ELSE IF off = 2 THEN fac \div 2 ELSE fac
      a == Mk([f.s EXCEPT ![ax] = m],
              LAMBDA i : SumS([k \in 1..F |-> At(p, Set(i, ax, first + i[ax] * fac + k - 1))]) \div F)
  IN  [f EXCEPT !.s = a.s, !.v = a.v, !.o[ax] = off, !.g = Regrid(f.g, ax, m)]
RECURSIVE TopHatFrom(_, _, _, _, _)
TopHatFrom(f, ax, F, fac, o) ==
  IF ax > Len(o) THEN f ELSE TopHatFrom(TopHatAxis(f, ax, F[ax], fac[ax], o[ax]), ax + 1, F, fac, o)
TopHat(f, F, fac) ==
  TopHatFrom(Linear(f, [d \in 1..Len(f.o) |-> IF F[d] > 1 THEN 2 ELSE f.o[d]]), 1, F, fac, f.o)

\* spectra: rows in FFT order, columns half spectrum
SpectralRow(i, m, n) == IF i < m - (m \div 2) THEN i ELSE n - m + i
SpectralKeep(a, m1, m2, scale) ==
  Mk(<<m1, m2 \div 2 + 1>>, LAMBDA i : FMul(scale, At(a, <<SpectralRow(i[1], m1, a.s[1]), i[2]>>)))
=============================================================================
