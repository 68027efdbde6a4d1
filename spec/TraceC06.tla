------------------------------ MODULE TraceC06 ------------------------------
EXTENDS Advect, Check, TraceData
VARIABLES s, l, st

TOL == 128
VTOL == 3000
Start(sess) == [none |-> 0]

AllPer(c) == \A d \in 1..Len(c.bc.t) : c.bc.t[d][1] = "P"
\* values off the wall only: what a scheme leaves on a wall is overwritten by its condition
Masked(e, out) == IF Len(out.v) # Len(e.v) THEN e
   ELSE [e EXCEPT !.v = TLCEval([k \in 1..Len(e.v) |-> IF OffWall(e, Unrav(k - 1, e.s)) THEN e.v[k] ELSE out.v[k]])]
Tol(ev) == IF ev.op \in {"vanleer", "vanleer2"} THEN VTOL ELSE TOL

Laws(ev, e) ==   \* consequences on the recorded data itself
  LET c == ev.c  out == ev.out  n == Len(e.v)
      stepped == [k \in 1..n |-> c.v[k] + FMul(ev.dt, out.v[k])]
  IN IF out.e # "" \/ ~out.ok \/ Len(out.v) # n THEN {}
     ELSE UNION {
       IF "conserve" \in ToSet(ev.laws) /\ Abs(SumS(out.v)) > n * Tol(ev) THEN {"total-changed"} ELSE {},
       IF "steady" \in ToSet(ev.laws) /\ (\E k \in 1..n : Abs(out.v[k]) > Tol(ev)) THEN {"constant-changed"} ELSE {},
       IF "range" \in ToSet(ev.laws) /\ (MaxS(stepped) > MaxS(c.v) + Tol(ev) \/ MinS(stepped) < MinS(c.v) - Tol(ev))
         THEN {"new-extremum"} ELSE {} }

FStep(st0, ev) ==
  [st |-> st0, bad |->
    IF ev.op \in {"linear", "upwind", "vanleer2"}
    THEN IF ~AllPer(ev.c) THEN RaisedBad(ev.out.e, {"NotImplementedError"})
         ELSE LET e == FluxForm(ev.op, ev.c, ev.w, ev.dt)
              IN FieldBad(ev.out, e, ev.c.o, ev.c.g, Tol(ev)) \cup Laws(ev, e)
    ELSE IF ev.op = "vanleer"
    THEN LET sup == ev.homog /\ \A j \in 1..Len(ev.w) : Supported(FluxBC(ev.w[j].bc, ev.c.bc, j)) IN
         IF ~sup THEN RaisedBad(ev.out.e, {"NotImplementedError"})
         ELSE LET e == VanLeer(ev.c, ev.w, ev.dt, ev.mode)
              IN FieldBad(ev.out, Masked(e, ev.out), ev.c.o, ev.c.g, Tol(ev)) \cup Laws(ev, e)
    ELSE IF ev.op = "semilag"
    THEN IF (\E d \in 1..Len(ev.c.o) : ev.c.g.lo[d] # 0) THEN RaisedBad(ev.out.e, {"ValueError"})
         ELSE IF ~AllPer(ev.c) THEN RaisedBad(ev.out.e, {"NotImplementedError"})
         ELSE LET e == SemiLag(ev.c, ev.w, ev.dt) IN
              VarBad(ev.out, e, ev.c.o, ev.c.g, ev.c.bc, 256)
              \cup (IF ev.out.e = "" /\ ev.out.ok /\ Len(ev.out.v) = Len(e.v) /\
                       (MaxS(ev.out.v) > MaxS(ev.c.v) + 64 \/ MinS(ev.out.v) < MinS(ev.c.v) - 64)
                    THEN {"new-extremum"} ELSE {})
    ELSE IF ev.op = "convect"
    THEN IF ~(ev.homog /\ ConvSupported(ev.w)) THEN RaisedBad(ev.out.e, {"NotImplementedError"})
         \* staggered self advection next to walls is not offered: it must refuse
         ELSE IF \E j \in 1..Len(ev.w) : ~AllPer(ev.w[j]) THEN RaisedBad(ev.out.e, {"ValueError", "NotImplementedError"})
         ELSE IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE LET e == Convect(ev.w) IN
              IF Len(ev.outs) # Len(e) THEN {"count"}
              ELSE UNION {FieldBad(ev.outs[i], Masked([e[i] EXCEPT !.bc = ev.w[i].bc], ev.outs[i]), ev.w[i].o, ev.w[i].g, TOL) : i \in 1..Len(e)}
                   \cup UNION {IF "conserve" \in ToSet(ev.laws) /\ ev.outs[i].ok /\ Abs(SumS(ev.outs[i].v)) > Len(e[i].v) * TOL
                               THEN {"momentum-changed"} ELSE {} : i \in 1..Len(e)}
    ELSE IF ev.op = "colinear"
    THEN IF ~(ev.homog /\ \A j \in 1..Len(ev.w) : Supported(FluxBC(ev.w[j].bc, ev.c.bc, j)))
         THEN RaisedBad(ev.out.e, {"NotImplementedError"})
         ELSE LET e == CoFluxForm(ev.c, ev.w) IN FieldBad(ev.out, e, ev.c.o, ev.c.g, TOL) \cup Laws(ev, e)
    ELSE IF ev.op = "coconvect"
    THEN IF ~(ev.homog /\ CoSupported(ev.w)) THEN RaisedBad(ev.out.e, {"NotImplementedError"})
         ELSE IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE LET e == CoConvect(ev.w) IN
              IF Len(ev.outs) # Len(e) THEN {"count"}
              ELSE UNION {FieldBad(ev.outs[i], e[i], ev.w[i].o, ev.w[i].g, TOL) : i \in 1..Len(e)}
    ELSE IF ev.op = "cfl"    \* largest step with the given Courant number on the finest axis
    THEN LET e == FDiv(FMul(ev.cn, MinS(ev.g.h)), ev.umax) IN
         IF ev.e # "" THEN {"raised-" \o ev.e} ELSE IF Abs(ev.out - e) > 64 THEN {"time-step"} ELSE {}
    ELSE {"unknown-event"} ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
