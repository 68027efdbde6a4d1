------------------------------ MODULE Boundary ------------------------------
(* Fields on staggered grids and the meaning of their boundary conditions.   *)
(*                                                                           *)
(* A field is a record                                                       *)
(*   s, v  shape and row-major data (fixed point, see Fix)                   *)
(*   o     location per axis in quarter cells: 0 lower edge, 2 centre,       *)
(*         4 upper edge, negative after padding the lower side               *)
(*   g     grid [n |-> cells, h |-> step, r |-> 1/step, lo, hi |-> domain]   *)
(*   bc    [t |-> <<<<lower, upper>> per axis>>, b |-> values], types        *)
(*         "P" periodic, "D" Dirichlet, "N" Neumann                          *)
(*                                                                           *)
(* Element j (0-based) of an axis sits at position o + 4j quarter cells; the *)
(* domain is [0, 4n].  Everything below is phrased in positions, so it does  *)
(* not follow the trim/pad mechanics of the implementation.                  *)
EXTENDS Arr

Pos(f, ax, j) == f.o[ax] + 4 * j
Edge(f, ax)   == f.o[ax] % 4 = 0
Wall(f, ax)   == 4 * f.g.n[ax]

\* --- Ghost values along one line ------------------------------------------
\* X(p) is the value the line already holds at position p.

\* Value at a position p >= wall on the upper side (non periodic)
UpperGhost(X(_), o, W, type, val, h, mode, p) ==
  LET lastIn == IF o % 4 = 0 THEN W - 4 ELSE W - 2      \* last interior position
      mirror == 2 * W - p
      src    == IF mode = "mirror" THEN mirror ELSE lastIn
  IN  IF type = "D"
      THEN IF o % 4 = 0
           THEN IF p = W \/ mode = "extend" THEN val
                ELSE val - X(mirror)   \* antisymmetric about the wall
           ELSE 2 * val - X(src)
      ELSE X(src) + FMul(h, val)          \* "N", centred only

LowerGhost(X(_), o, type, val, h, mode, p) ==
  LET firstIn == IF o % 4 = 0 THEN 4 ELSE 2
      mirror  == -p
      src     == IF mode = "mirror" THEN mirror ELSE firstIn
  IN  IF type = "D"
      THEN IF o % 4 = 0
           THEN IF p = 0 \/ mode = "extend" THEN val
                ELSE val - X(mirror)   \* antisymmetric about the wall
           ELSE 2 * val - X(src)
      ELSE X(src) - FMul(h, val)

\* The window of a periodic field that is trusted: positions from w0, n cells.
PerStart(f, ax) ==
  LET m == f.s[ax]  n == f.g.n[ax]  o == f.o[ax]
      c == (3 - o) \div 4                                \* ceil(-o/4)
  IN  IF m >= n /\ o <= 0 THEN Min2(c, m - n) ELSE 0

\* Extend axis ax: to the lower side when w < 0, to the upper side otherwise.
PadAxis(f, ax, w, mode) ==
  LET n  == f.g.n[ax]   m == f.s[ax]   o == f.o[ax]   W == 4 * n
      t  == f.bc.t[ax]  b == f.bc.b[ax]  h == f.g.h[ax]
      o2 == IF w < 0 THEN o + 4 * w ELSE o
      m2 == m + Abs(w)
      st == PerStart(f, ax)
      sh == [f.s EXCEPT ![ax] = m2]
      val(i) ==
        LET p == o2 + 4 * i[ax]
            X(q) == At(f, Set(i, ax, (q - o) \div 4))
        IN IF (IF w < 0 THEN t[1] ELSE t[2]) = "P"
           THEN LET j == (p - o) \div 4
                IN  At(f, Set(i, ax, st + ((j - st) % n)))
           ELSE IF w < 0
                THEN IF p > 0 THEN X(p)
                     ELSE LowerGhost(X, o, t[1], b[1], h, mode, p)
                ELSE IF p < W THEN X(p)
                     ELSE UpperGhost(X, o, W, t[2], b[2], h, mode, p)
      a == Mk(sh, val)
  IN  [f EXCEPT !.s = a.s, !.v = a.v, !.o = [@ EXCEPT ![ax] = o2]]

TrimAxis(f, ax, w) ==
  LET a == IF w < 0 THEN Cut(f, ax, -w, f.s[ax]) ELSE Cut(f, ax, 0, f.s[ax] - w)
  IN  [f EXCEPT !.s = a.s, !.v = a.v,
                !.o = IF w < 0 THEN [@ EXCEPT ![ax] = @ - 4 * w] ELSE @]

ShiftAxis(f, ax, k, mode) == TrimAxis(PadAxis(f, ax, k, mode), ax, -k)

PadBoth(f, ax, lo, hi, mode) == PadAxis(PadAxis(f, ax, -lo, mode), ax, hi, mode)

RECURSIVE PadAllFrom(_, _, _, _)
PadAllFrom(f, ax, ws, mode) ==
  IF ax > Len(f.g.n) THEN f
  ELSE PadAllFrom(PadBoth(f, ax, ws[ax][1], ws[ax][2], mode), ax + 1, ws, mode)
PadAll(f, ws, mode) == PadAllFrom(f, 1, ws, mode)

\* --- Interior and imposed boundary ----------------------------------------
\* Fewest elements that contain the whole interior along ax
MinSize(f, ax) ==
  LET t == f.bc.t[ax]
      at1 == IF f.o[ax] = 4 THEN 1 ELSE 0
  IN f.g.n[ax] - (IF t[1] = "D" THEN at1 ELSE 0) - (IF t[2] = "D" THEN at1 ELSE 0)
Aligned(f, ax) == f.s[ax] >= MinSize(f, ax)
EdgeNeumann(f, ax) == f.bc.t[ax][1] = "N" /\ f.o[ax] % 4 = 0

\* strictly interior elements along a non-periodic axis; n elements if periodic
InteriorAxis(f, ax) ==
  LET n == f.g.n[ax]  m == f.s[ax]  o == f.o[ax]  W == 4 * n
      per == f.bc.t[ax][1] = "P"
      lo == IF per THEN PerStart(f, ax)
            ELSE IF o > 0 THEN 0 ELSE (-o) \div 4 + 1                  \* first p > 0
      hi == IF per THEN Min2(m, lo + n)
            ELSE Min2(m, (W - 1 - o) \div 4 + 1)                       \* last p < W
      a == Cut(f, ax, lo, hi)
  IN  IF m < n THEN f
      ELSE [f EXCEPT !.s = a.s, !.v = a.v, !.o = [@ EXCEPT ![ax] = o + 4 * lo]]

RECURSIVE InteriorFrom(_, _)
InteriorFrom(f, ax) == IF ax > Len(f.g.n) THEN f ELSE InteriorFrom(InteriorAxis(f, ax), ax + 1)
Interior(f) == InteriorFrom(f, 1)

\* put back the values that lie on a Dirichlet wall of an interior field
WallAxis(f, ax, to) ==
  IF f.bc.t[ax][1] = "D" /\ f.o[ax] = 4
  THEN IF to = 4 THEN PadAxis(f, ax, 1, "extend")
       ELSE IF to = 0 THEN PadAxis(f, ax, -1, "extend") ELSE f
  ELSE f
RECURSIVE WallFrom(_, _, _)
WallFrom(f, ax, to) == IF ax > Len(f.g.n) THEN f ELSE WallFrom(WallAxis(f, ax, to[ax]), ax + 1, to)
PadToWall(f, to) == WallFrom(f, 1, to)
Impose(f) == PadToWall(Interior(f), f.o)
=============================================================================
