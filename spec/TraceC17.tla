------------------------------ MODULE TraceC17 ------------------------------
EXTENDS Stencil, Check, TraceData
VARIABLES s, l, st
Start(sess) == [none |-> 0]

StencilBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF ev.out.v # StencilOf(ev.sizes, ev.off, ev.h) THEN {"stencil-location"} ELSE {}

RollBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET nd == Len(ev.i) IN
       (IF \E d \in 1..nd : ev.out.sh[d] < 0 \/ ev.out.sh[d] >= ONE THEN {"shift-not-in-unit-cell"} ELSE {})
       \cup (IF \E d \in 1..nd : ev.out.sh[d] - FInt(ev.out.roll[d]) # ev.t[d] - ev.i[d] THEN {"roll-plus-shift"} ELSE {})

\* the slice of a 1-D stencil that carries the standard coefficients
SliceOf(n, ord, acc) == LET ex == IF acc = 0 THEN 0 ELSE n - ord - acc
                        IN  <<ex \div 2, n - (ex \div 2)>>
\* standard coefficients: product of the 1-D ones of highest order on the slice
CoefBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET nd == Len(ev.st)
           shape == [d \in 1..nd |-> Len(ev.st[d])]
           sl == [d \in 1..nd |-> SliceOf(Len(ev.st[d]), ev.ord[d], ev.acc)]
           in(i) == \A d \in 1..nd : i[d] >= sl[d][1] /\ i[d] < sl[d][2]
           ks == Tuples(shape)
           \* a line of the table along axis d through the multi-index i
           lines == {<<d, i>> : d \in 1..nd, i \in {ks[q] : q \in 1..Len(ks)}}
           sub(d) == SubSeq(ev.st[d], sl[d][1] + 1, sl[d][2])
           \* weight of the line: the sum against x^ord/ord! must be the same as dropping that axis
           lineRows(d) == Rows(<<sub(d)>>, ev.fv, <<ev.ord[d]>>, Len(sub(d)) - ev.ord[d], ev.h)
           lineOf(d, i) == [q \in 1..Len(sub(d)) |-> At(ev.out, [i EXCEPT ![d] = sl[d][1] + q - 1])]
           total(i, d) == \* the product of the other axes' coefficients = the order-th moment of the line / ord!
             LET row == CHOOSE r \in lineRows(d) : r[2] # 0 IN FDiv(Dot(lineOf(d, i), row[1]), row[2])
       IN  IF ev.out.s # shape THEN {"size"} ELSE IF ~ev.out.ok THEN {"not-finite"}
           ELSE (IF \E q \in 1..Len(ks) : ~in(ks[q]) /\ At(ev.out, ks[q]) # 0 THEN {"outside-slice"} ELSE {})
            \cup (IF \E q \in 1..Len(ks), d \in 1..nd : in(ks[q]) /\
                     LET tt == total(ks[q], d) IN
                     \E r \in lineRows(d) : Abs(Dot(lineOf(d, ks[q]), r[1]) - FMul(tt, r[2])) > 64 + Tol(r[1], lineOf(d, ks[q]))
                  THEN {"not-the-standard-coefficients"} ELSE {})
            \cup (IF ~Satisfies(ev.out.v, {r \in Rows(ev.st, ev.fv, ev.ord, IF ev.acc = 0 THEN 1 ELSE ev.acc, ev.h) : TRUE})
                  THEN {"accuracy"} ELSE {})

ConstrainBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF ev.zero.e # "" THEN {"raised-" \o ev.zero.e}
  ELSE LET rows == TLCEval(Rows(ev.st, ev.fv, ev.ord, ev.acc, ev.h))
           m == Prod([d \in 1..Len(ev.st) |-> Len(ev.st[d])])
           want == SubSeq(ev.lg.s, 1, Len(ev.lg.s) - 1) \o <<m>>
       IN  (IF ev.n # m - RankOf(rows) THEN {"subspace-size"} ELSE {})
           \cup (IF ev.out.s # want THEN {"size"} ELSE IF ~ev.out.ok THEN {"not-finite"}
                 ELSE IF \E j \in 1..Prod(SubSeq(want, 1, Len(want) - 1)) : ~Satisfies(CoefAt(ev.out, j, m), rows)
                 THEN {"accuracy"} ELSE {})
           \cup (IF ~Satisfies(ev.zero.v, rows) THEN {"bias-accuracy"} ELSE {})
           \* affine and injective: distinct network outputs, distinct coefficients
           \cup (LET z == {j \in 1..Prod(SubSeq(want, 1, Len(want) - 1)) : \A q \in 1..ev.n : CoefAt(ev.lg, j, ev.n)[q] = 0}
                     same(j) == \A q \in 1..m : Abs(ev.out.v[(j - 1) * m + q] - ev.zero.v[q]) <= 2
                 IN IF \E j \in 1..Prod(SubSeq(want, 1, Len(want) - 1)) : same(j) # (j \in z) THEN {"parametrisation"} ELSE {})

NoConstraintBad(ev) ==
  LET rows == TLCEval(Rows(ev.st, ev.fv, ev.ord, ev.acc, ev.h))
      m == Prod([d \in 1..Len(ev.st) |-> Len(ev.st[d])])
  IN  \* refused only when there is no freedom left, or the default bias is not accurate enough
      IF ev.out.e # "ValueError" THEN {"raised-" \o ev.out.e} ELSE
      IF Consistent(rows) /\ RankOf(rows) < m
         /\ (ev.acc = 1 \/ (ev.bacc = ev.acc /\ \A d \in 1..Len(ev.st) : Len(ev.st[d]) - ev.ord[d] >= ev.acc)) THEN {"refused-a-valid-constraint"} ELSE {}

\* cells' coefficients satisfy the conditions of the stencil around the target
CoefCells(c, sizes, i, t, ord, h, n) ==
  LET rows == TLCEval(Rows(StencilOf(sizes, Frac(i, t), h), TRUE, ord, 1, h))
      m == Prod(sizes)
  IN  \A j \in 1..n : Satisfies(CoefAt(c, j, m), rows)

DerivBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e} ELSE IF ev.one.e # "" THEN {"raised-" \o ev.one.e}
  ELSE IF ev.c.e # "" THEN {"raised-" \o ev.c.e}
  ELSE LET w == Weighted(ev.x, ev.c, ev.sizes, ev.i, ev.t)
           want == [s |-> ev.x.s \o <<1>>, v |-> w.v]
           const == [s |-> ev.x.s \o <<1>>, v |-> [k \in 1..Len(w.v) |-> IF SumS(ev.ord) = 0 THEN ONE ELSE 0]]
       IN  DataBad(ev.out, want, 512)
           \cup (IF DataBad(ev.one, const, 512) # {} THEN {"constant-field"} ELSE {})
           \cup (IF ~CoefCells(ev.c, ev.sizes, ev.i, ev.t, ev.ord, ev.h, Len(w.v)) THEN {"accuracy"} ELSE {})

InterpBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e} ELSE IF ev.one.e # "" THEN {"raised-" \o ev.one.e}
  ELSE LET w == Weighted(ev.x, ev.c, ev.sizes, ev.i, ev.t)
           nd == Len(ev.sizes)
       IN  VarBad(ev.out, w, ev.to, ev.x.g, ev.x.bc, 512)
           \cup (IF DataBad(ev.one, Const(ev.x.s, ONE), 512) # {} THEN {"constant-field"} ELSE {})
           \cup (IF ~CoefCells(ev.c, ev.sizes, ev.i, ev.t, [d \in 1..nd |-> 0], ev.h, Len(w.v)) THEN {"accuracy"} ELSE {})

\* the network sees the input and auxiliaries aligned with the target cell
NetBad(ev) ==
  LET nd == Len(ev.i)  sh == Shift(ev.i, ev.t)
      al(a) == Mk(a.s, LAMBDA j : At(a, [d \in 1..nd |-> (j[d] + sh[d]) % a.s[d]] \o <<j[nd + 1]>>))
      parts == <<al(ev.x)>> \o [q \in 1..Len(ev.aux) |-> al(ev.aux[q])]
      tot == SumS([q \in 1..Len(parts) |-> parts[q].s[nd + 1]])
      cum(q) == SumS([p \in 1..(q - 1) |-> parts[p].s[nd + 1]])
      e == Mk(SubSeq(ev.x.s, 1, nd) \o <<tot>>, LAMBDA j :
             LET q == CHOOSE q \in 1..Len(parts) : j[nd + 1] >= cum(q) /\ j[nd + 1] < cum(q) + parts[q].s[nd + 1]
             IN  At(parts[q], [j EXCEPT ![nd + 1] = @ - cum(q)]))
  IN  DataBad(ev.out, e, 0)

Clauses(ev) ==
  CASE ev.op = "stencil" -> StencilBad(ev)
    [] ev.op = "roll" -> RollBad(ev)
    [] ev.op = "coef" -> CoefBad(ev)
    [] ev.op = "constrain" -> ConstrainBad(ev)
    [] ev.op = "noconstraint" -> NoConstraintBad(ev)
    [] ev.op = "deriv" -> DerivBad(ev)
    [] ev.op = "interp" -> InterpBad(ev)
    [] ev.op = "netinput" -> NetBad(ev)
    [] ev.op = "same" -> DataBad(ev.out, ev.a, 4)
    [] ev.op = "unchanged" -> VarBad(ev.out, ev.x, ev.x.o, ev.x.g, ev.x.bc, 0)
    [] ev.op = "keys" -> IF ev.a = ev.b THEN {} ELSE {"keys"}
    [] ev.op = "refuse" -> RaisedBad(ev.out.e, {ev.want[q] : q \in 1..Len(ev.want)})
    [] ev.op = "raised" -> {"raised-" \o ev.out.e}
FStep(st0, ev) == [st |-> st0, bad |-> Clauses(ev)]
INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
