------------------------------ MODULE TraceC05 ------------------------------
EXTENDS Interp, FiniteSets, TraceData
VARIABLES s, l, st

TOL == 16
LTOL == 600     \* limited schemes divide; values stay within 2^9
Start(sess) == [none |-> 0]

Bad(out, e, o, g, bc, tol, anybc) ==
  IF out.e # "" THEN {"raised-" \o out.e}
  ELSE UNION { IF out.s # e.s THEN {"size"} ELSE IF ~out.ok THEN {"not-finite"}
                 ELSE IF ~NearA(e, out, tol) THEN {"values"} ELSE {},
               IF out.o # o THEN {"location"} ELSE {},
               IF out.g # g THEN {"grid"} ELSE {},
               IF ~anybc /\ out.bc # bc THEN {"boundary-condition"} ELSE {} }

\* at zero velocity either donor is a legitimate choice
ZeroEither(out, e1, e2, u, tol) ==
  [e1 EXCEPT !.v = [k \in 1..Len(e1.v) |->
     IF u.v[k] = 0 /\ Len(out.v) = Len(e1.v) /\ Abs(out.v[k] - e2.v[k]) <= tol THEN e2.v[k] ELSE e1.v[k]]]

HighOrder(ev, f, ax, u) ==
  IF ev.inner = "linear" THEN LinearAxis(f, ax, ev.to[ax]) ELSE LaxWendroff(f, ax, u, ev.dt)
NegEps(u) == [u EXCEPT !.v = [k \in 1..Len(u.v) |-> IF u.v[k] = 0 THEN 1 ELSE u.v[k]]]

FStep(f, ev) ==
  LET D == Differing(f.o, ev.to)
      ax == CHOOSE d \in D : TRUE
      u == ev.v[ax]
  IN
  CASE ev.op = "new" -> [st |-> ev.f, bad |-> {}]
    [] ev.op = "linear" ->
         LET e == Linear(f, ev.to) IN
         [st |-> [f EXCEPT !.s = e.s, !.v = e.v, !.o = e.o],
          bad |-> Bad(ev.out, e, ev.to, f.g, f.bc, TOL, FALSE)]
    [] ev.op = "upwind" ->
         [st |-> f, bad |->
           IF D = {} THEN Bad(ev.out, f, f.o, f.g, f.bc, 0, FALSE)
           ELSE IF Cardinality(D) > 1 THEN (IF ev.out.e = "InconsistentOffsetError" THEN {} ELSE {"not-refused"})
           ELSE LET e == Upwind(f, ax, u)  e2 == Upwind(f, ax, NegEps(u))
                IN Bad(ev.out, ZeroEither(ev.out, e, e2, u, TOL), ev.to, f.g, f.bc, TOL, TRUE)]
    [] ev.op = "laxwendroff" ->
         [st |-> f, bad |->
           IF D = {} THEN Bad(ev.out, f, f.o, f.g, f.bc, 0, FALSE)
           ELSE IF Cardinality(D) > 1 THEN (IF ev.out.e = "InconsistentOffsetError" THEN {} ELSE {"not-refused"})
           ELSE Bad(ev.out, LaxWendroff(f, ax, u, ev.dt), ev.to, f.g, f.bc, TOL, TRUE)]
    [] ev.op = "limited" ->
         [st |-> f, bad |->
           IF D = {} THEN Bad(ev.out, f, f.o, f.g, f.bc, 0, FALSE)
           ELSE IF ev.to[ax] - f.o[ax] # 2 THEN (IF ev.out.e = "NotImplementedError" THEN {} ELSE {"not-refused"})
           ELSE LET hi == HighOrder(ev, f, ax, u)
                    e  == Limited(f, ax, u, hi, ev.lim)  e2 == Limited(f, ax, NegEps(u), hi, ev.lim)
                IN Bad(ev.out, ZeroEither(ev.out, e, e2, u, LTOL), ev.to, f.g, f.bc, LTOL, FALSE)]
    [] ev.op = "limiter" ->
         [st |-> f, bad |-> IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
            ELSE IF ~ev.out.ok THEN {"not-finite"}
            ELSE IF \E k \in 1..Len(ev.r.v) : Abs(ev.out.v[k] - Limiter("van_leer", ev.r.v[k])) > 64 THEN {"limiter"} ELSE {}]
    [] ev.op = "point" ->
         [st |-> f, bad |->
           IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
           ELSE IF ev.out.s # <<Len(ev.pts)>> THEN {"size"}
           ELSE IF \E k \in 1..Len(ev.pts) :
                Abs(ev.out.v[k] - PointInterp(f, ev.pts[k], ev.mode, ev.cval, ev.order)) > 64 THEN {"point-value"} ELSE {}]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
