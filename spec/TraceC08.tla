------------------------------ MODULE TraceC08 ------------------------------
EXTENDS Diffuse, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]

CompBad(u, x, kappa, tol) ==
  IF x.s # u.s THEN {"size"}
  ELSE IF ~x.ok THEN {"not-finite"}
  ELSE UNION {
    IF x.o # u.o THEN {"location"} ELSE {}, IF x.g # u.g THEN {"grid"} ELSE {},
    IF x.bc # u.bc THEN {"boundary-condition"} ELSE {},
    IF Residual(u, [x EXCEPT !.o = u.o, !.bc = u.bc, !.g = u.g], kappa) > tol THEN {"implicit-residual"} ELSE {},
    IF ~WallsRespected([x EXCEPT !.o = u.o, !.bc = u.bc, !.g = u.g], 16) THEN {"wall-value"} ELSE {},
    IF Insulated(u.bc) /\ Abs(SumS(x.v) - SumS(u.v)) > tol * Len(u.v) THEN {"total-changed"} ELSE {},
    IF ~HasNeumannFlux(u.bc) /\ InteriorPts(u) # {} /\
       (\E k \in InteriorPts(u) : x.v[k] > MaxOf(Extent(u)) + tol \/ x.v[k] < MinOf(Extent(u)) - tol)
      THEN {"new-extremum"} ELSE {} }

FStep(st0, ev) ==
  [st |-> st0, bad |->
    CASE ev.op = "implicit" ->
           IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
           ELSE IF Len(ev.outs) # Len(ev.w) THEN {"count"}
           ELSE UNION {CompBad(ev.w[c], ev.outs[c], ev.kappa, ev.tol) : c \in 1..Len(ev.w)}
      [] ev.op = "rate" -> LET e == Rate(ev.w[1], ev.nu) IN FieldBad(ev.out, e, e.o, e.g, ev.tol)
      [] ev.op = "corate" ->
           IF \E d \in 1..Len(ev.w[1].o) : ev.w[1].bc.t[d][1] # "P" THEN RaisedBad(ev.out.e, {"ValueError"})
           ELSE LET e == CoRate(ev.w[1], ev.nu) IN FieldBad(ev.out, e, e.o, e.g, ev.tol)
      [] ev.op = "dt" -> IF ev.e # "" THEN {"raised-" \o ev.e}
                         ELSE IF ev.nu = 0 THEN (IF ev.inf THEN {} ELSE {"time-step"})
                         ELSE IF ev.inf \/ Abs(ev.out - StableStep(ev.nu, ev.g)) > 16 THEN {"time-step"} ELSE {}
      [] ev.op = "nsdt" -> \* combined advective / diffusive limit
           LET adv == FDiv(FMul(ev.cn, MinS(ev.g.h)), ev.umax)
               lim == IF ev.nu = 0 THEN 0 ELSE StableStep(ev.nu, ev.g)
               refuse == ~ev.implicit /\ ev.nu # 0 /\ lim < adv - 16
               border == ~ev.implicit /\ ev.nu # 0 /\ Abs(lim - adv) <= 16
           IN IF border THEN {} ELSE IF refuse THEN RaisedBad(ev.e, {"ValueError"})
              ELSE IF ev.e # "" THEN {"raised-" \o ev.e} ELSE IF Abs(ev.out - adv) > 64 THEN {"time-step"} ELSE {}
      [] ev.op = "refuse" -> RaisedBad(ev.out.e, {ev.want}) ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
