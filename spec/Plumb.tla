------------------------------- MODULE Plumb -------------------------------
(* How a model moves data: frames of a trajectory to model state and back,    *)
(* fields to channels and back, networks in between (here: a mix of channels).*)
EXTENDS Solver, Spectral, Check

PyAxis(ax, nd) == IF ax < 0 THEN ax + nd + 1 ELSE ax + 1        \* Python axis, 1-based
WithoutAx(q, ax) == SubSeq(q, 1, ax - 1) \o SubSeq(q, ax + 1, Len(q))
InsertAx(q, ax, x) == SubSeq(q, 1, ax - 1) \o <<x>> \o SubSeq(q, ax, Len(q))

\* --- frames ---------------------------------------------------------------
Frame(x, ax, j) == Mk(WithoutAx(x.s, ax), LAMBDA i : At(x, InsertAx(i, ax, j)))
LastFrame(x, ax) == Frame(x, ax, x.s[ax] - 1)
\* the last n frames, time moved to the end
LastFrames(x, ax, n) ==
  LET m == IF n < x.s[ax] THEN n ELSE x.s[ax]  sp == WithoutAx(x.s, ax)
  IN  Mk(Append(sp, m), LAMBDA i : At(x, InsertAx(SubSeq(i, 1, Len(sp)), ax, x.s[ax] - m + i[Len(i)])))

\* --- channels ---------------------------------------------------------------
Channels(x) == x.s[Len(x.s)]
Channel(x, c) == Frame(x, Len(x.s), c - 1)
Stacked(fs) == Mk(Append(fs[1].s, Len(fs)), LAMBDA i : At(fs[i[Len(i)] + 1], SubSeq(i, 1, Len(i) - 1)))
\* arrays with channels, one after the other
RECURSIVE JoinChannels(_)
JoinChannels(q) == IF Len(q) = 1 THEN q[1]
  ELSE LET a == q[1]  b == JoinChannels(Tail(q))  ca == Channels(a) IN
       Mk([a.s EXCEPT ![Len(a.s)] = ca + Channels(b)], LAMBDA i : LET c == i[Len(i)] IN
          IF c < ca THEN At(a, i) ELSE At(b, [i EXCEPT ![Len(i)] = c - ca]))
FieldOf(a, o, g, bc) == [s |-> a.s, v |-> a.v, o |-> o, g |-> g, bc |-> bc]
\* the field, then the values n, n-1, .. cells away: copies shifted along each axis
Neighbours(x, n) ==
  LET nd == Len(x.s) - 1
      shifts == [k \in 1..(2 * n) |-> IF k <= n THEN k - n - 1 ELSE k - n]
      copies == [k \in 1..(2 * n * nd) |-> Roll(x, ((k - 1) % nd) + 1, -shifts[((k - 1) \div nd) + 1])]
  IN  JoinChannels(TLCEval(copies) \o <<x>>)
\* a network that mixes channels: y[j] = sum_i M[i][j] x[i] + b[j]
Mixed(x, M, b) ==
  LET k == Len(x.s)  nc == Channels(x) IN
  Mk([x.s EXCEPT ![k] = Len(b)], LAMBDA i :
     b[i[k] + 1] + SumS([c \in 1..nc |-> FMul(M[c][i[k] + 1], At(x, [i EXCEPT ![k] = c - 1]))]))
\* channels to fields at given locations, moved to where they are needed
SplitTo(x, from, to, g, bcs) ==
  TLCEval([c \in 1..Len(to) |-> Linear(FieldOf(Channel(x, c), from[c], g, bcs[c]), to[c])])
FacesOf(nd) == [c \in 1..nd |-> [d \in 1..nd |-> IF d = c THEN 4 ELSE 2]]
CentreOf(nd) == [d \in 1..nd |-> 2]
\* channels as fluxes: entry (i, j) is the flux along j of component i
FluxPush(x, g) ==
  LET nd == Len(g.n)  F == FacesOf(nd)
      flux(i, j) == FieldOf(Channel(x, (i - 1) * nd + j), [F[j] EXCEPT ![i] = @ + 2], g, Periodic(nd))
  IN  TLCEval([i \in 1..nd |-> NegF(Diverge(TLCEval([j \in 1..nd |-> flux(i, j)])))])

\* --- learned viscosities -------------------------------------------------------
Flat(T) == LET n == Len(T) IN [k \in 1..(n * n) |-> T[((k - 1) \div n) + 1][((k - 1) % n) + 1]]
ScalarVisc(w, inputs, M, b, scale) ==
  LET S == Strain(w)  nd == Len(w)
      y == Channel(Mixed(Stacked(inputs), M, b), 1)
      nu == FieldOf([s |-> y.s, v |-> [k \in 1..Len(y.v) |-> FMul(scale, y.v[k])]], CentreOf(nd), w[1].g, Periodic(nd))
  IN  TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |-> Linear(nu, S[i][j].o)])])
CentredStrain(w) == LET F == Flat(Strain(w)) IN TLCEval([k \in 1..Len(F) |-> Linear(FieldOf(F[k], F[k].o, w[1].g, Periodic(Len(w))), CentreOf(Len(w)))])

\* --- vorticity -------------------------------------------------------------------
HatNear(a, b, tol) == a.s = b.s /\ CNear(a, b, tol)
=============================================================================
