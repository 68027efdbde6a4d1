------------------------------ MODULE TraceC18 ------------------------------
EXTENDS Training, Check, TraceData
VARIABLES s, l, st
Start(sess) == [none |-> 0]
TOL == 512

PNear(p, q) == Abs(p.a - q.a) <= TOL /\ Len(p.b) = Len(q.b) /\ \A c \in 1..Len(p.b) : Abs(p.b[c] - q.b[c]) <= TOL
MetricsBad(st0, out, q) ==
  IF out.e # "" THEN {"raised-" \o out.e}
  ELSE IF out.keys # <<"first", "total">> THEN {"metric-names"}
  ELSE LET L(i) == LossOf(st0.ts.os.p, st0.B[i], st0.stop, st0.scale)
           F(i) == L2One(Predict(st0.ts.os.p, st0.B[i]), st0.B[i], 0, ONE, 1)
           tot == MeanOf([k \in 1..Len(q) |-> L(q[k])])
           fst == MeanOf([k \in 1..Len(q) |-> F(q[k])])
       IN  (IF Abs(out.m.total - tot) > TOL THEN {"metric-total"} ELSE {})
           \cup (IF Abs(out.m.first - fst) > TOL THEN {"metric-first-step"} ELSE {})

TrainStepE(st0, ev) ==
  CASE ev.op = "new" -> [st |-> [B |-> ev.B, stop |-> ev.stop, scale |-> ev.scale,
                                 ts |-> [step |-> ev.step, os |-> ev.os], saved |-> [step |-> ev.step, os |-> ev.os]], bad |-> {}]
    [] ev.op = "train" ->
         IF ev.out.e # "" THEN [st |-> st0, bad |-> {"raised-" \o ev.out.e}]
         ELSE LET b == st0.B[ev.b[1]]
                  n == Train1(st0.ts, b, st0.stop, st0.scale)
                  loss == LossOf(st0.ts.os.p, b, st0.stop, st0.scale)
              IN  [st |-> [st0 EXCEPT !.ts = [step |-> ev.out.step, os |-> ev.out.os]],
                   bad |-> (IF ev.out.step # n.step THEN {"step-count"} ELSE {})
                     \cup (IF ~PNear(ev.out.os.p, n.os.p) THEN {"parameters"} ELSE {})
                     \cup (IF ~PNear(ev.out.os.m, n.os.m) THEN {"optimiser-state"} ELSE {})
                     \cup (IF Abs(ev.out.loss - loss) > TOL THEN {"loss"} ELSE {})]
    [] ev.op = "eval" -> [st |-> st0, bad |-> MetricsBad(st0, ev.out, ev.b)]
    [] ev.op = "mean" -> [st |-> st0, bad |-> IF Len(ev.b) = 0 THEN RaisedBad(ev.out.e, {"RuntimeError"}) ELSE MetricsBad(st0, ev.out, ev.b)]
    [] ev.op = "save" -> [st |-> [st0 EXCEPT !.saved = st0.ts], bad |-> {}]
    [] ev.op = "restore" -> [st |-> [st0 EXCEPT !.ts = st0.saved], bad |-> {}]

\* slices [b, 0, ...] of a leaf are changed, everything else is the input
FrameIdx(x) == LET per == Prod(SubSeq(x.s, 3, Len(x.s)))  T == x.s[2] IN {k \in 1..Len(x.v) : ((k - 1) \div per) % T = 0}
NoiseBad(ev) ==
  LET outs == {ev.one, ev.again, ev.other, ev.double, ev.shifted}
      N == Len(ev.xs)
      nz(o, i, k) == o.ls[i].v[k] - ev.xs[i].v[k]
  IN  IF \E o \in outs : o.e # "" THEN {"raised-" \o o.e : o \in {p \in outs : p.e # ""}}
      ELSE IF \E o \in outs : ~o.same \/ Len(o.ls) # N \/ \E i \in 1..Len(o.ls) : o.ls[i].s # ev.xs[i].s THEN {"structure"}
      ELSE (IF \E i \in 1..N, o \in outs \ {ev.shifted} : \E k \in 1..Len(ev.xs[i].v) : k \notin FrameIdx(ev.xs[i]) /\ nz(o, i, k) # 0
            THEN {"later-frames-changed"} ELSE {})
       \cup (IF \E i \in 1..N : \E k \in FrameIdx(ev.xs[i]) : Abs(nz(ev.one, i, k)) > 2 * ev.scale + 2 THEN {"noise-bound"} ELSE {})
       \cup (IF ev.one # ev.again THEN {"not-reproducible"} ELSE {})
       \cup (IF \E i \in 1..N : \E k \in FrameIdx(ev.xs[i]) : Abs(2 * nz(ev.one, i, k) - nz(ev.double, i, k)) > 4 THEN {"noise-scale"} ELSE {})
       \cup (IF \E i \in 1..N : \E k \in 1..Len(ev.xs[i].v) : Abs(ev.shifted.ls[i].v[k] - ev.one.ls[i].v[k] - ONE) > 4 THEN {"noise-not-additive"} ELSE {})
       \cup (IF ev.scale = 0 THEN {} ELSE
             \* noise is fresh: no two of its entries agree, across entries, leaves and keys
             LET all == {<<i, k>> : i \in 1..N, k \in 1..Len(ev.xs[1].v)}
                 fr == {q \in all : q[2] \in FrameIdx(ev.xs[q[1]])}
                 dist == {nz(ev.one, q[1], q[2]) : q \in fr}
             IN  (IF 2 * Cardinality(dist) < Cardinality(fr) + 1 THEN {"noise-repeated"} ELSE {})
                 \cup (IF \A q \in fr : nz(ev.one, q[1], q[2]) = nz(ev.other, q[1], q[2]) THEN {"key-ignored"} ELSE {}))

ReduceBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET B == ev.xs[1].s[ev.b]
           \* the metric of one example (its own first axis is the time axis)
           one(j) == SumS([c \in 1..Len(ev.xs) |-> SqSum(Cut(ev.xs[c], ev.b, j, j + 1), Cut(ev.ys[c], ev.b, j, j + 1))])
           tot == SumS([j \in 1..B |-> one(j - 1)])
           e == IF ev.mean THEN tot \div B ELSE tot
       IN  (IF ev.out.n # (IF ev.dist THEN B ELSE 1) \/ (~ev.dist /\ ev.out.d # 0) THEN {"size"} ELSE {})
           \cup (IF \E k \in 1..Len(ev.out.v) : Abs(ev.out.v[k] - e) > TOL THEN {"values"} ELSE {})

TreeBad(ls, es) == IF Len(ls) # Len(es) THEN {"structure"}
                   ELSE UNION {IF ls[i].s # es[i].s THEN {"size"} ELSE IF ls[i].v # es[i].v THEN {"values"} ELSE {} : i \in 1..Len(es)}
Clauses(ev) ==
  CASE ev.op = "l2" ->
         IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE LET e == IF ev.cum THEN L2Cum(ev.xs, ev.ys, ev.stop, ev.scale, ev.ax) ELSE L2One(ev.xs, ev.ys, ev.n, ev.scale, ev.ax)
              IN  (IF Abs(e - ev.out.v) > TOL THEN {"values"} ELSE {}) \cup (IF ev.out.scalar THEN {} ELSE {"size"})
    [] ev.op = "corr" ->
         IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE LET e == CorrMean(ev.xs, ev.ys, ev.n, ev.tax, ev.bax)
              IN  (IF Abs(e - ev.out.v) > TOL THEN {"values"} ELSE {}) \cup (IF ev.out.scalar THEN {} ELSE {"size"})
    [] ev.op = "reduce" -> ReduceBad(ev)
    [] ev.op = "noise" -> NoiseBad(ev)
    [] ev.op = "ident" -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e} ELSE TreeBad(ev.out.ls, ev.xs)
    [] ev.op = "preprocess" ->
         IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE LET n == Min2(ev.take, Min2(Len(ev.data), Len(ev.keys)))
              IN  IF Len(ev.out.q) # n THEN {"number-of-batches"}
                  ELSE UNION {TreeBad(ev.out.q[j], <<Map1(ev.data[j], LAMBDA x : 2 * x + ev.keys[j]), ev.data[j]>>) : j \in 1..n}
    [] ev.op = "split" -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE TreeBad(ev.out.ls, [i \in 1..Len(ev.xs) |-> Scale(Cut(ev.xs[i], ev.ax, 0, ev.n), ev.c)])
    [] ev.op = "include" -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE LET cat(x, y) == LET m == x.s[ev.ax] IN Mk([x.s EXCEPT ![ev.ax] = 2 * m], LAMBDA i :
                                IF i[ev.ax] < m THEN At(x, i) ELSE At(y, Mov(i, ev.ax, -m)))
              IN  TreeBad(ev.out.ls, [i \in 1..Len(ev.xs) |-> cat(ev.xs[i], Scale(ev.xs[i], ev.c))])
                  \cup TreeBad(ev.out.fin, [i \in 1..Len(ev.xs) |-> Map1(ev.xs[i], LAMBDA x : x + ONE)])
    [] ev.op = "wrap" -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
         ELSE TreeBad(ev.out.ls, [i \in 1..Len(ev.xs) |-> Map1(ev.xs[i], LAMBDA x : 2 * (x - ONE))])
              \cup TreeBad(ev.out.fin, ev.xs)
FStep(st0, ev) ==
  IF ev.op \in {"new", "train", "eval", "mean", "save", "restore"} THEN TrainStepE(st0, ev)
  ELSE [st |-> st0, bad |-> Clauses(ev)]
INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
