------------------------------ MODULE TraceC22 ------------------------------
(* Recorded derivations from stored flows (C22).                             *)
EXTENDS Dataset, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
Raised(ev) == IF ev.out.e # "" THEN {"raised-" \o ev.out.e} ELSE {}
ArrBad(want, got, tol, name) ==
  IF got.s # want.s THEN {name \o "-size"} ELSE IF ~got.ok THEN {name \o "-not-finite"}
  ELSE IF ~NearA(want, got, tol) THEN {name} ELSE {}
SeqNear(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol

TrajBad(ev) ==
  LET names == NamesOf(ev.nd, ev.ns, ev.prefix) IN
  UNION {
    IF ev.names # names THEN {"names"} ELSE
      UNION { UNION {
        IF ev.dims[k] # DimsOf(ev.nd, ev.samples) THEN {"dims"} ELSE {},
        IF ev.data[k].s # ev.a[k].s \/ ev.data[k].v # ev.a[k].v THEN {"values"} ELSE {},
        IF k > ev.ns /\ ev.grid /\ ev.off[k] # FaceLoc(ev.nd, k - ev.ns) THEN {"offset"} ELSE {},
        IF k <= ev.ns /\ ev.off[k] # ev.soff THEN {"offset"} ELSE {} } : k \in 1..Len(names) },
    IF ev.grid THEN (IF Len(ev.axes) # ev.nd THEN {"coordinates"}
                     ELSE IF \E d \in 1..ev.nd : ~SeqNear(CentreAxis(ev.g, d), ev.axes[d], 64) THEN {"coordinates"} ELSE {})
               ELSE (IF ev.axes # <<>> THEN {"coordinates"} ELSE {}),
    IF ev.times # ev.gottimes THEN {"times"} ELSE {},
    IF ev.samples /\ ev.ids # [k \in 1..ev.a[1].s[1] |-> k - 1] THEN {"samples"} ELSE {},
    IF ev.attrs # ev.gotattrs THEN {"attributes"} ELSE {} }

DiagOf(name, w, g) == CASE name = "vorticity" -> Vorticity(w, g) [] name = "enstrophy" -> Enstrophy(w, g)
                        [] name = "speed" -> Speed(w) [] name = "kinetic_energy" -> Energy(w)
DiagBad(ev) == (IF ev.name # ev.want THEN {"name"} ELSE {}) \cup
  (IF Len(ev.got) # Len(ev.w) THEN {"slices"} ELSE
   UNION { ArrBad(DiagOf(ev.want, ev.w[j], ev.g), ev.got[j], ev.tol, ev.want) : j \in 1..Len(ev.w) })
MagBad(ev) == LET w == [k \in 1..(2 * Len(ev.re)) |-> IF k <= Len(ev.re) THEN ev.re[k] ELSE ev.im[k - Len(ev.re)]] IN
  ArrBad(Speed(w), ev.got, ev.tol, "magnitude")

SpecBad(ev) ==
  UNION { UNION { LET E == Spectrum(ev.w[j]) IN UNION {
      ArrBad(E, ev.got[j], ev.tol, "spectrum"),
      \* the spectrum adds up to the energy (times the number of points)
      IF ev.got[j].ok /\ Abs(SumS([k \in 1..Len(E.v) |-> ev.got[j].v[k] \div Len(E.v)]) - SumS(Energy(ev.w[j]).v)) > ev.tol * 4 THEN {"energy-sum"} ELSE {} }
      : j \in 1..Len(ev.w) },
    IF \E d \in 1..Len(ev.g.n) : Len(ev.kaxes[d]) # ev.g.n[d] \/ \E j \in 1..ev.g.n[d] : Abs(ev.kaxes[d][j] - KVal(ev.g, d, j)) > 64 THEN {"wave-numbers"} ELSE {} }
LabelsOk(ev) == \A j \in 1..Len(ev.labels) : Abs(ev.labels[j] - FDiv(j * TWOPI, MinL(ev.L))) <= 64 * j
ShellBad(ev) ==
  UNION { IF ~CountOk(ev.n, ev.L, Len(ev.labels)) THEN {"count"} ELSE {},
    IF ~LabelsOk(ev) THEN {"labels"} ELSE {},
    UNION { IF Len(ev.got[q]) # Len(ev.labels) THEN {"size"}
            ELSE IF \E j \in 1..Len(ev.labels) : ~ShellOk(ev.E[q], ev.n, ev.L, j, ev.got[q][j], ev.tol) THEN {"shell-sum"} ELSE {} : q \in 1..Len(ev.E) } }
RingBad(ev) ==
  UNION { IF ~CountOk(ev.n, ev.L, Len(ev.labels)) THEN {"count"} ELSE {},
    IF ~LabelsOk(ev) THEN {"labels"} ELSE {},
    LET top == TopUnits(ev.n, ev.L)  cs == Circle(ev.nq) IN
    UNION { IF j * ONE < top - 16 THEN (IF Abs(ev.got[j] - Ring(ev.lg, ev.n, ev.L, j, cs)) > ev.tol THEN {"ring-mean"} ELSE {}) ELSE {} : j \in 1..Len(ev.labels) } }
IsoBad(ev) ==   \* spectra averaged over the slices given together, then summed over shells
  LET sp == TLCEval([j \in 1..Len(ev.w) |-> Spectrum(ev.w[j])])
      E == [s |-> sp[1].s, v |-> TLCEval([k \in 1..Len(sp[1].v) |-> SumS([j \in 1..Len(sp) |-> sp[j].v[k] \div Len(sp)])])]
  IN  UNION { IF ~CountOk(ev.n, ev.L, Len(ev.labels)) THEN {"count"} ELSE {},
        IF ~LabelsOk(ev) THEN {"labels"} ELSE {},
        IF Len(ev.got) # Len(ev.labels) THEN {"size"}
        ELSE IF \E j \in 1..Len(ev.labels) : ~ShellOk(E, ev.n, ev.L, j, ev.got[j], ev.tol) THEN {"shell-sum"} ELSE {} }

CorrBad(ev) ==
  UNION { UNION { ArrBad(AutoCorr(ev.w[j], ev.ax), ev.got[j], ev.tol, "correlation") : j \in 1..Len(ev.w) },
    IF ev.name # ev.want THEN {"name"} ELSE {},
    IF \E j \in 1..Len(ev.disp) : Abs(ev.disp[j] - (j - 1) * Spacing(ev.g, ev.ax)) > 64 THEN {"displacement"} ELSE {},
    IF Len(ev.disp) # ev.g.n[ev.ax] \div 2 THEN {"displacement-count"} ELSE {} }
NormBad(ev) == UNION { IF ~SeqNear(Unit(ev.v[q]), ev.got[q], ev.tol) THEN {"normalised"} ELSE {} : q \in 1..Len(ev.v) }

\* error summaries between a model and the truth: p[s][t], q[s][t] are arrays
ErrBad(ev) == UNION { IF ~SeqNear([k \in 1..Len(ev.p[j].v) |-> Abs(ev.p[j].v[k] - ev.q[j].v[k])], ev.got[j].v, ev.tol) THEN {"absolute-error"} ELSE {} : j \in 1..Len(ev.p) }
CorrOf(p, q) == Dot(Unit(p), Unit(q))
StateBad(ev) == UNION { IF Abs(Mean([k \in 1..Len(ev.p) |-> CorrOf(ev.p[k][t].v, ev.q[k][t].v)]) - ev.got[t]) > ev.tol THEN {"state-correlation"} ELSE {} : t \in 1..Len(ev.got) }
AvgBad(ev) == UNION { IF Abs(Mean([k \in 1..Len(ev.p) |-> Mean(ev.p[k][t].v)]) - ev.got[t]) > ev.tol THEN {"average"} ELSE {} : t \in 1..Len(ev.got) }
BelowBad(ev) == UNION { IF \E k \in 1..Len(ev.p[j].v) : LET d == Abs(ev.p[j].v[k] - ev.q[j].v[k]) IN
     (d <= ev.th - 2 /\ ev.got[j].v[k] = 0) \/ (d >= ev.th + 2 /\ ev.got[j].v[k] # 0) \/ (d = ev.th /\ ev.got[j].v[k] = 0) THEN {"below-threshold"} ELSE {} : j \in 1..Len(ev.p) }
MetricBad(ev) == LET f(a, g) == IF ev.log THEN LogDistance(a, g, ev.th) ELSE Distance(a, g, ev.th) IN
  UNION { IF Abs(Mean([k \in 1..Len(ev.p) |-> f(ev.p[k][t].v, ev.q[k][t].v)]) - ev.got[t]) > ev.tol THEN {"metric"} ELSE {} : t \in 1..Len(ev.got) }
TimeBad(ev) ==
  UNION { IF Len(ev.got) # ((Len(ev.u[1]) - 1) \div ev.sub) + 1 THEN {"lags"}
    ELSE IF \E j \in 1..Len(ev.got) : \E c \in 1..Len(ev.u) : Abs(ev.got[j][c] - TimeCorr(ev.u[c], (j - 1) * ev.sub)) > ev.tol THEN {"time-correlation"} ELSE {},
    IF \E j \in 1..Len(ev.lags) : Abs(ev.lags[j] - (ev.t0 + (j - 1) * ev.sub * ev.dt)) > 64 THEN {"lag-labels"} ELSE {} }

\* the summary of a model run: fields by name, p[n][s][t], q[n][s][t]
Near1(x, y, tol) == Abs(x - y) <= tol
SumBad(ev) == UNION { LET p == ev.p[n]  q == ev.q[n]  nm == ev.names[n]  S == Len(p)  Tn == Len(p[1])
      flat(f) == FoldLeft(LAMBDA x, y : x \o y, <<>>, [k \in 1..S |-> f[k]])
      first == flat([k \in 1..S |-> p[k][1].v]) \o flat([k \in 1..S |-> q[k][1].v])
  IN UNION {
    IF \E t \in 1..Tn : ~Near1(ev.mean[n][t], Mean([k \in 1..S |-> Mean(p[k][t].v)]), ev.tol) THEN {nm \o "-mean"} ELSE {},
    IF \E t \in 1..Tn : ~Near1(ev.error[n][t], Mean([k \in 1..S |-> Mean([x \in 1..Len(p[k][t].v) |-> Abs(p[k][t].v[x] - q[k][t].v[x])])]), ev.tol) THEN {nm \o "-error"} ELSE {},
    IF ev.corr[n] = <<>> THEN {} ELSE IF \E t \in 1..Tn : ~Near1(ev.corr[n][t], Mean([k \in 1..S |-> CorrOf(p[k][t].v, q[k][t].v)]), ev.ctol) THEN {nm \o "-correlation"} ELSE {},
    UNION { LET th == Quantile(first, ev.qs[z]) IN
       IF \E t \in 1..Tn : LET d == flat([k \in 1..S |-> [x \in 1..Len(p[k][t].v) |-> Abs(p[k][t].v[x] - q[k][t].v[x])]])
                               c(y) == FDiv(Cardinality({x \in 1..Len(d) : d[x] <= y}) * ONE, Len(d) * ONE)
                           IN ~(ev.within[n][z][t] >= c(th - 32) - 16 /\ ev.within[n][z][t] <= c(th + 32) + 16)
       THEN {nm \o "-within"} ELSE {} : z \in 1..Len(ev.qs) } } : n \in 1..Len(ev.names) }

GridBad(ev) == LET a == ev.a  nd == a.nd
     n == IF a.kind = "square" THEN [d \in 1..nd |-> a.n[1]] ELSE a.n
     hi == IF a.kind = "square" THEN [d \in 1..nd |-> a.L] ELSE <<a.L, ONE>>
  IN UNION { IF ev.g.n # n THEN {"shape"} ELSE {}, IF ev.g.lo # [d \in 1..nd |-> 0] THEN {"lower-bound"} ELSE {},
             IF Len(ev.g.hi) # nd \/ \E d \in 1..nd : Abs(ev.g.hi[d] - hi[d]) > 4 THEN {"upper-bound"} ELSE {} }

\* pictures of a trajectory: x[time, row, column]
FramesBad(ev) ==
  LET T == ev.x.s[1]  h == ev.x.s[2]  w == ev.x.s[3]
      val(t, r, c) == ev.x.v[((t - 1) * h + r) * w + c + 1]
      all(t) == [k \in 1..(h * w) |-> Abs(ev.x.v[(t - 1) * h * w + k])]
      M == TLCEval([t \in 1..T |-> IF ev.lo = <<>> THEN Quantile(all(t), (999 * ONE) \div 1000) ELSE 0])
      lo(t) == IF ev.lo = <<>> THEN -M[t] ELSE ev.lo[t]
      hi(t) == IF ev.lo = <<>> THEN M[t] ELSE ev.hi[t]
      ok(t) == LET Shows(c, r, x) == ShowsValue(c, val(t, r, x), lo(t), hi(t), 24)
               IN  StretchOk(ev.outs[t], w, h, IF ev.longest = 0 THEN (IF w > h THEN w ELSE h) ELSE ev.longest, Shows)
  IN  IF Len(ev.outs) # T THEN {"frames"} ELSE IF \E t \in 1..T : ~ok(t) THEN {"picture"} ELSE {}
FacetBad(ev) ==
  LET n == MinS([k \in 1..Len(ev.ps) |-> Len(ev.ps[k])])
      row(t) == [k \in 1..Len(ev.ps) |-> ev.ps[k][t]]
  IN  IF Len(ev.outs) # n THEN {"frames"}
      ELSE IF \E t \in 1..n : \A s1 \in NearestInt(ev.ps[1][1].w * ev.width) : ev.outs[t] # Facet(row(t), s1, ev.strip) THEN {"layout"} ELSE {}
MovieBad(ev) == UNION { IF ev.outs # ev.ps THEN {"frames"} ELSE {}, IF ev.times # [k \in 1..Len(ev.ps) |-> ev.duration] THEN {"duration"} ELSE {},
                        IF ev.gotloop # ev.loop THEN {"loop"} ELSE {} }

FStep(st0, ev) ==
  [st |-> st0, bad |->
    IF ev.op = "refuse" THEN (IF ev.out.e = ev.want THEN {} ELSE {"not-refused"})
    ELSE IF ev.op = "rings" /\ ev.out.e = "ValueError" /\ TopUnits(ev.n, ev.L) <= (3 * ONE) \div 2 + 16 THEN {}   \* no ring fits
    ELSE IF Raised(ev) # {} THEN Raised(ev)
    ELSE CASE ev.op = "traj" -> TrajBad(ev)
      [] ev.op = "diag" -> DiagBad(ev)
      [] ev.op = "mag" -> MagBad(ev)
      [] ev.op = "spectrum" -> SpecBad(ev)
      [] ev.op = "shells" -> ShellBad(ev)
      [] ev.op = "rings" -> RingBad(ev)
      [] ev.op = "isospec" -> IsoBad(ev)
      [] ev.op = "equal" -> ArrBad(ev.a, ev.b, ev.tol, "composition")
      [] ev.op = "corr" -> CorrBad(ev)
      [] ev.op = "norm" -> NormBad(ev)
      [] ev.op = "abserr" -> ErrBad(ev)
      [] ev.op = "state" -> StateBad(ev)
      [] ev.op = "average" -> AvgBad(ev)
      [] ev.op = "below" -> BelowBad(ev)
      [] ev.op = "metric" -> MetricBad(ev)
      [] ev.op = "time" -> TimeBad(ev)
      [] ev.op = "summary" -> SumBad(ev)
      [] ev.op = "frames" -> FramesBad(ev)
      [] ev.op = "facet" -> FacetBad(ev)
      [] ev.op = "movie" -> MovieBad(ev)
      [] ev.op = "grid" -> GridBad(ev) ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
