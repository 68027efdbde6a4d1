------------------------------ MODULE TraceC24 ------------------------------
EXTENDS Tangent, Check, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
V(q) == TLCEval([i \in 1..Len(q) |-> q[i].v])
Fin(q) == \A i \in 1..Len(q) : q[i].ok
SameSizes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i])
Near(a, b, tol) == \A i \in 1..Len(a) : \A k \in 1..Len(a[i]) : Abs(a[i][k] - b[i][k]) <= tol
\* a secant measured on the real code counts only where both sides agree (away from kinks)

TanBad(ev) ==
  LET d == V(ev.dys) IN
  CASE ev.rule = "exact" ->
         LET e == Derivative(ev.f, ev.p, ev.xs, V(ev.ts)) IN
         IF ~SameSizes(e, d) THEN {"tangent-size"} ELSE IF ~Near(e, d, ev.tol) THEN {"tangent"} ELSE {}
    [] ev.rule = "projection" ->
         LET star == TLCEval([i \in 1..Len(ev.xs) |-> Impose(WithV(Hom(ev.xs[i]), ev.ts[i].v))])
             out == TLCEval([i \in 1..Len(ev.xs) |-> [ok |-> TRUE] @@ WithV(Hom(ev.xs[i]), d[i])])
         IN IF ~SameSizes(V(ev.ts), d) THEN {"tangent-size"} ELSE {"tangent-" \o b : b \in ProjRel(star, out, ev.tol)}
    [] ev.rule = "coprojection" ->
         LET star == TLCEval([i \in 1..Len(ev.xs) |-> WithV(Hom(ev.xs[i]), ev.ts[i].v)])
             out == TLCEval([i \in 1..Len(ev.xs) |-> [ok |-> TRUE] @@ WithV(Hom(ev.xs[i]), d[i])])
         IN IF ~SameSizes(V(ev.ts), d) THEN {"tangent-size"} ELSE {"tangent-" \o b : b \in CoProjRel(star, out, ev.tol)}
    [] ev.rule = "implicit" ->
         IF ~SameSizes(V(ev.ts), d) THEN {"tangent-size"}
         ELSE IF \E i \in 1..Len(d) : Residual(WithV(Hom(ev.xs[i]), ev.ts[i].v), WithV(Hom(ev.xs[i]), d[i]), ev.p.c) > ev.tol
              THEN {"tangent-implicit-residual"} ELSE {}
    [] ev.rule = "secant" ->
         IF ~SameSizes(V(ev.chg), d) THEN {"tangent-size"}
         ELSE IF ~Fin(ev.chg) \/ ~Fin(ev.chg2) THEN {}
         ELSE IF \E i \in 1..Len(d) : \E k \in 1..Len(d[i]) : LET a == ev.chg[i].v[k]  b == ev.chg2[i].v[k] IN
                   Abs(a - b) <= ev.tol \div 8 /\ Abs(a - d[i][k]) > ev.tol
              THEN {"tangent"} ELSE {}
    [] OTHER -> {}

AdjBad(ev) == LET a == Dot(V(ev.cs), V(ev.dys))  b == Dot(V(ev.bs), V(ev.ts)) IN
  IF Abs(a - b) > ev.atol * (Count(V(ev.ts)) + Count(V(ev.cs))) THEN {"adjoint"} ELSE {}

RECURSIVE Unroll(_, _, _)
Unroll(ev, k, q) == \* q: <<fields, tangents, frames so far>>
  IF k = ev.outer * ev.inner THEN IF ev.head THEN q[3] ELSE Append(q[3], <<q[1], q[2]>>)
  ELSE LET keep == IF ev.head THEN k % ev.inner = 0 ELSE k % ev.inner = 0 /\ k > 0 IN
       Unroll(ev, k + 1, << EulerOf(ev.f, ev.p, q[1], ev.dt), EulerTangent(ev.f, ev.p, q[1], q[2], ev.dt),
                            IF keep THEN Append(q[3], <<q[1], q[2]>>) ELSE q[3] >>)

FStep(st0, ev) ==
  [st |-> st0, bad |->
    IF ev.e # "" THEN {"raised-" \o ev.e}
    ELSE CASE ev.op = "tangent" ->
           IF ~Fin(ev.dys) THEN {"derivative-not-finite"}
           ELSE IF ~Fin(ev.bs) THEN {"gradient-not-finite"}
           ELSE IF ~SameSizes(V(ev.ts), V(ev.bs)) THEN {"gradient-size"}
           ELSE TanBad(ev) \cup AdjBad(ev)
                \cup (IF ~SameSizes(V(ev.ys), V(ev.y0)) \/ ~Near(V(ev.ys), V(ev.y0), ev.ptol) THEN {"value-changed-by-transformation"} ELSE {})
      [] ev.op = "batch" ->
           IF Len(ev.lanes) # Len(ev.batched) THEN {"batch-size"}
           ELSE UNION {LET a == V(ev.lanes[i])  b == V(ev.batched[i]) IN
               IF ~SameSizes(a, b) THEN {"batch-shape"}
               ELSE IF ~Fin(ev.batched[i]) THEN {"not-finite"}
               ELSE IF ~Near(a, b, ev.tol) THEN {"batched-value"}
               ELSE IF ev.f \in (Linears \cup Quadratics) /\ ~Near(OpOf(ev.f, ev.p, ev.xs[i]), b, 128) THEN {"values"} ELSE {} : i \in 1..Len(ev.lanes)}
      [] ev.op = "unroll" ->
           LET fr == Unroll(ev, 0, <<ev.xs, V(ev.ts), <<>>>>) IN
           IF Len(fr) # Len(ev.frames) \/ Len(fr) # Len(ev.tframes) THEN {"frames"}
           ELSE UNION { IF ~Near([i \in 1..Len(fr[j][1]) |-> fr[j][1][i].v], V(ev.frames[j]), ev.tol) THEN {"frame-value"} ELSE {} : j \in 1..Len(fr)}
                \cup UNION { IF ~Fin(ev.tframes[j]) THEN {"derivative-not-finite"}
                             ELSE IF ~Near(fr[j][2], V(ev.tframes[j]), ev.tol) THEN {"frame-tangent"} ELSE {} : j \in 1..Len(fr)}
                \cup (IF ~Fin(ev.bs) THEN {"gradient-not-finite"} ELSE AdjBad(ev)) ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
