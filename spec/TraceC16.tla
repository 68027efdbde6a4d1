------------------------------ MODULE TraceC16 ------------------------------
EXTENDS Conv, Check, TraceData
VARIABLES s, l, st
\* the state is the whole field and the tiles it is currently split into
Start(sess) == [x |-> Const(<<1>>, 0), t |-> Const(<<1>>, 0)]
TOL == 64

RECURSIVE TowerFrom(_, _, _, _)
TowerFrom(x, ps, rates, k) ==
  LET y == ConvPeriodic(x, ps[k].w, ps[k].b.v, rates[k], 1)
  IN  IF k = Len(ps) THEN y ELSE TowerFrom(Relu(y), ps, rates, k + 1)

RECURSIVE ResFrom(_, _, _, _)
ResFrom(x, ps, skip, k) ==
  IF k = Len(ps) THEN ConvPeriodic(x, ps[k].w, ps[k].b.v, 1, 1)
  ELSE LET z == Scale(x, skip)
       IN  ResFrom(Add(z, ConvPeriodic(x, ps[k].w, ps[k].b.v, 1, 1)), ps, skip, k + 1)

\* every channel spans [lo, hi] exactly, affinely
Rescale(x, lo, hi) ==
  LET nd == Len(x.s) - 1
      n  == Prod(SubSeq(x.s, 1, nd))
      c  == x.s[nd + 1]
      ch(q) == [k \in 1..n |-> x.v[(k - 1) * c + q]]
      mx == TLCEval([q \in 1..c |-> MaxS(ch(q))])
      mn == TLCEval([q \in 1..c |-> MinS(ch(q))])
  IN  [s |-> x.s, v |-> TLCEval([k \in 1..Len(x.v) |->
        LET q == ((k - 1) % c) + 1
        IN  IF mx[q] = mn[q] THEN 0 ELSE lo + FMul(FDiv(x.v[k] - mn[q], mx[q] - mn[q]), hi - lo)])]
Constant(x) == LET nd == Len(x.s) - 1  n == Prod(SubSeq(x.s, 1, nd))  c == x.s[nd + 1]
  IN \E q \in 1..c : \A k \in 1..n : x.v[(k - 1) * c + q] = x.v[q]

Clauses(st0, ev) ==
  CASE ev.op = "conv"  -> DataBad(ev.out, ConvPeriodic(ev.x, ev.w, ev.b.v, ev.rate, ev.stride), TOL)
    [] ev.op = "valid" -> DataBad(ev.out, ConvValid(ev.x, ev.w, ev.b.v, ev.rate, ev.stride), TOL)
    [] ev.op = "trans" -> DataBad(ev.out, ConvTransPeriodic(ev.x, ev.w, ev.b.v, ev.stride), TOL)
    [] ev.op = "mirror" ->
         IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE LET e == ConvMirror(ev.xs, ev.w, ev.b.v, ev.rate)
              IN  IF Len(e) # Len(ev.outs) THEN {"channels"}
                  ELSE UNION {VarBad(ev.outs[c], e[c], e[c].o, e[c].g, e[c].bc, TOL) : c \in 1..Len(e)}
    [] ev.op = "uconv" -> LET nd == Len(ev.w.s) - 2
                              e == Mk([d \in 1..nd |-> st0.x.s[d]] \o <<ev.w.s[nd + 2]>>, LAMBDA i :
                                     Corr(LAMBDA j, c : At(st0.x, [d \in 1..nd |-> j[d] % st0.x.s[d]] \o <<c>>),
                                          [d \in 1..nd |-> i[d] + PatchLow(ev.w.s[d])], ev.w, 1, i[nd + 1]))
                          IN DataBad(ev.out, e, TOL)
    [] ev.op = "to_batch" -> DataBad(ev.out, ToBatch(st0.x, ev.lay), 0)
    [] ev.op = "halo" -> IF \E d \in 1..Len(ev.lay) : Max2(ev.pad[d][1], ev.pad[d][2]) > st0.t.s[d + 1]
                         THEN IF ev.out.e = "" THEN {"halo-wider-than-tile-accepted"} ELSE {}
                         ELSE DataBad(ev.out, HaloWhole(st0.t, ev.lay, ev.pad), 0)
    [] ev.op = "to_space" -> DataBad(ev.out, st0.x, 0)
    [] ev.op = "patch" -> LET e == Patches(ev.x, ev.ps)
                              m == Prod(ev.ps)  nd == Len(ev.ps)
                              f == Mk(SubSeq(e.s, 1, nd) \o <<m * ev.n>>, LAMBDA i : At(e, [i EXCEPT ![nd + 1] = @ % m]))
                          IN  DataBad(ev.out, f, 0)
    [] ev.op = "rescale" -> IF Constant(ev.x) THEN {} ELSE DataBad(ev.out, Rescale(ev.x, ev.lo, ev.hi), TOL)
    [] ev.op = "scale" -> DataBad(ev.out, Scale(ev.x, ev.c), TOL)
    [] ev.op = "scalevar" -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
                             ELSE LET e == Impose([ev.x EXCEPT !.v = Scale(ev.x, ev.c).v])
                                  IN  VarBad(ev.outs[1], e, e.o, e.g, e.bc, TOL)
    [] ev.op = "tower" -> DataBad(ev.out, Scale(TowerFrom(Scale(ev.x, ev.ci), ev.ps, ev.rates, 1), ev.co), 512)
    [] ev.op = "residual" -> DataBad(ev.out, Scale(ResFrom(Scale(ev.x, ev.ci), ev.ps, ev.skip, 1), ev.co), 512)
    [] ev.op = "connection" -> DataBad(ev.out, Add(ev.x, ConvPeriodic(ev.x, ev.ps[1].w, ev.ps[1].b.v, 1, 1)), TOL)
    [] ev.op = "refuse" -> IF ev.out.e = "" THEN {"not-refused"} ELSE {}
    [] ev.op = "raised" -> {"raised-" \o ev.out.e}
    [] OTHER -> {}

Next1(st0, ev) ==
  CASE ev.op = "field" -> [st0 EXCEPT !.x = [s |-> ev.x.s, v |-> ev.x.v]]
    [] ev.op = "to_batch" -> [st0 EXCEPT !.t = IF ev.out.e = "" THEN ToBatch(st0.x, ev.lay) ELSE @]
    [] OTHER -> st0

FStep(st0, ev) == [st |-> Next1(st0, ev), bad |-> Clauses(st0, ev)]
INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
