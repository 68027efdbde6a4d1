------------------------------- MODULE Advect -------------------------------
(* Flux-form and back-tracking advection.                                    *)
EXTENDS Diff

\* the wall condition of a flux c*u in direction dir ("X": not supported)
FluxTypes(u, c, dir) ==
  LET side(i) == IF u.t[dir][i] = "D" /\ u.b[dir][i] = 0 THEN "D"
                 ELSE IF u.t[dir][i] = "N" /\ c.t[dir][i] = "N" /\ c.b[dir][i] = 0 THEN "N" ELSE "X"
  IN [d \in 1..Len(u.t) |-> IF u.t[d][1] = "P" THEN <<"P", "P">>
                      ELSE IF d # dir THEN <<"D", "D">> ELSE <<side(1), side(2)>>]
FluxBC(u, c, dir) == [t |-> FluxTypes(u, c, dir), b |-> [d \in 1..Len(u.t) |-> <<0, 0>>]]
Supported(bc) == \A d \in 1..Len(bc.t) : bc.t[d][1] # "X" /\ bc.t[d][2] # "X"

MulF(a, b) == [a EXCEPT !.v = TLCEval([k \in 1..Len(a.v) |-> FMul(a.v[k], b.v[k])])]
WithBC(f, bc) == Impose([f EXCEPT !.bc = bc])
CVFaces(o) == [j \in 1..Len(o) |-> [o EXCEPT ![j] = @ + 2]]

\* -- schemes on periodic scalars --
FaceVal(scheme, c, ax, to, u, dt) ==
  CASE scheme = "linear" -> Linear(c, to)
    [] scheme = "upwind" -> LET a == Upwind(c, ax, u) IN [c EXCEPT !.v = a.v, !.o = to]
    [] scheme = "vanleer2" ->
         LET hi == LaxWendroff(c, ax, u, dt)  a == Limited(c, ax, u, hi, "van_leer")
         IN [c EXCEPT !.v = a.v, !.o = to]
FluxFormFluxes(scheme, c, w, dt) ==
  LET to == CVFaces(c.o)  nd == Len(c.o)
      u  == TLCEval([j \in 1..nd |-> Linear(w[j], to[j])])
  IN  TLCEval([j \in 1..nd |-> WithBC(MulF(FaceVal(scheme, c, j, to[j], u[j], dt), u[j]),
                                      FluxBC(w[j].bc, c.bc, j))])
FluxForm(scheme, c, w, dt) == NegF(Diverge(FluxFormFluxes(scheme, c, w, dt)))

\* -- self advection of a velocity --
FaceVel(w) ==  \* FaceVel(w)[i][j]: component i at face j of its own control volume
  TLCEval([i \in 1..Len(w) |-> TLCEval([j \in 1..Len(w) |-> Linear(w[i], CVFaces(w[i].o)[j])])])
ConvFlux(w, A, i, j) ==
  WithBC(MulF(A[i][j], A[j][i]), FluxBC(w[j].bc, w[i].bc, j))
Convect(w) == LET A == FaceVel(w) IN
  TLCEval([i \in 1..Len(w) |-> NegF(Diverge(TLCEval([j \in 1..Len(w) |-> ConvFlux(w, A, i, j)])))])
ConvSupported(w) == \A i, j \in 1..Len(w) : i <= j => Supported(FluxBC(w[j].bc, w[i].bc, j))

\* -- cell-centred velocities --
CoSupported(w) == \A i, j \in 1..Len(w) : Supported(FluxBC(w[j].bc, w[i].bc, j))
CoFluxForm(c, w) == NegF(CDiverge([j \in 1..Len(w) |-> WithBC(MulF(c, w[j]), FluxBC(w[j].bc, c.bc, j))]))
CoConvect(w) == TLCEval([i \in 1..Len(w) |-> NegF(CDiverge([j \in 1..Len(w) |->
    WithBC(MulF(w[i], w[j]), FluxBC(w[j].bc, w[i].bc, j))]))])

\* -- Van Leer scheme, walls allowed: upwind flux plus a limited correction --
\* limited slope: harmonic mean of two successive differences of equal sign
Harm(num, den) == IF num = 0 \/ den = 0 \/ Sgn(num) # Sgn(den) THEN 0
                  ELSE Sgn(num) * 2 * FMul(Abs(num), FDiv(Abs(den), Abs(num) + Abs(den)))
\* the scalar relocated to the lower edge when it lives on the upper edge
RECURSIVE LowerFrom(_, _)
LowerFrom(c, ax) == IF ax > Len(c.o) THEN c
                    ELSE LowerFrom(Impose(IF c.o[ax] = 4 THEN Sh(c, ax, -1) ELSE c), ax + 1)
VLFlux(cl, w, ax, dt, mode) ==
  LET to == CVFaces(cl.o)[ax]
      u  == Linear(w[ax], to)
      up == Sh(cl, ax, 1)
      \* corrections live on faces that have both neighbours inside
      Q  == PadBoth(cl, ax, 2, 2, mode)
      off == (cl.o[ax] - Q.o[ax]) \div 4
      Cv(i, d) == At(Q, Mov(i, ax, off + d))
      per == cl.bc.t[ax][1] = "P"
      cn(x) == FMul(FMul(dt, cl.g.r[ax]), x)
      val(i) == LET uu == At(u, i)
                    low == IF uu > 0 THEN FMul(uu, At(cl, i)) ELSE FMul(uu, At(up, i))
                    den == Cv(i, 1) - Cv(i, 0)
                    num == IF uu > 0 THEN Cv(i, 0) - Cv(i, -1) ELSE Cv(i, 2) - Cv(i, 1)
                    cor == FMul(FMul(ONE - cn(Abs(uu)), Abs(uu)), Harm(num, den)) \div 2
                IN  IF ~per /\ to[ax] + 4 * i[ax] >= 4 * cl.g.n[ax] THEN low ELSE low + cor
  IN  [cl EXCEPT !.v = Mk(cl.s, val).v, !.o = to]
VanLeer(c, w, dt, mode) ==
  LET cl == LowerFrom(c, 1)
      fl == TLCEval([j \in 1..Len(c.o) |-> WithBC(VLFlux(cl, w, j, dt, mode), FluxBC(w[j].bc, c.bc, j))])
      a  == NegF(Diverge(fl))
      back[d \in 0..Len(c.o)] == IF d = 0 THEN [a EXCEPT !.bc = c.bc]
                                 ELSE IF c.o[d] = 4 THEN Sh(back[d - 1], d, 1) ELSE back[d - 1]
  IN  back[Len(c.o)]

\* -- back-tracking --
SemiLag(c, w, dt) ==
  LET u == TLCEval([j \in 1..Len(w) |-> Linear(w[j], c.o)])
      at(i) == [d \in 1..Len(i) |-> Coord0(c, d, i) - FMul(dt, At(u[d], i))]
  IN  [c EXCEPT !.v = Mk(c.s, LAMBDA i : PointInterp(c, at(i), "wrap", 0, 1)).v]

\* elements that do not lie on a wall
OffWall(f, i) == \A d \in 1..Len(i) : LET p == f.o[d] + 4 * i[d] IN
                   f.bc.t[d][1] = "P" \/ (p > 0 /\ p < 4 * f.g.n[d])
=============================================================================
