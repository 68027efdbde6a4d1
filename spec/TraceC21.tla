------------------------------ MODULE TraceC21 ------------------------------
(* Recorded starting velocities (C21).                                       *)
EXTENDS Initial, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
Tags(g, os, bcs, o) ==
  IF Len(o) # Len(os) THEN {"components"} ELSE UNION { UNION {
   IF o[k].s # g.n THEN {"size"} ELSE {}, IF o[k].o # os[k] THEN {"location"} ELSE {},
   IF o[k].g # g THEN {"grid"} ELSE {}, IF o[k].bc # bcs[k] THEN {"boundary-condition"} ELSE {},
   IF ~o[k].ok THEN {"not-finite"} ELSE {} } : k \in 1..Len(os) }
Faces(nd) == [c \in 1..nd |-> [d \in 1..nd |-> IF d = c THEN 4 ELSE 2]]
Centres(nd) == [c \in 1..nd |-> [d \in 1..nd |-> 2]]

UserBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET nd == Len(ev.g.n)  t == Tags(ev.g, Faces(nd), ev.bcs, ev.outs) IN
    IF t # {} THEN t
    ELSE LET w == TLCEval([c \in 1..nd |-> Sampled(ev.fns[c], ev.g, Faces(nd)[c], ev.bcs[c], ev.outs[c].ty)]) IN
      IF ev.iters <= 0
      THEN IF \E c \in 1..nd : ~NearA(w[c], ev.outs[c], ev.tol) THEN {"values"} ELSE {}
      ELSE ProjRel(TLCEval([c \in 1..nd |-> Impose(w[c])]), ev.outs, ev.tol)
           \cup (IF \E c \in 1..nd : ~WallsRespected(ev.outs[c], 64) THEN {"wall-value"} ELSE {})
WrapBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET os == IF ev.off = <<>> THEN Faces(Len(ev.g.n)) ELSE ev.off
           t == Tags(ev.g, os, ev.bcs, ev.outs) IN
    IF t # {} THEN t
    ELSE UNION { LET f == [s |-> ev.a[c].s, v |-> ev.a[c].v, o |-> os[c], g |-> ev.g, bc |-> ev.bcs[c]] IN
           (IF ~NearA(Impose(f), ev.outs[c], 8) THEN {"values"} ELSE {}) : c \in 1..Len(os) }

Same(a, b, tol) == Len(a) = Len(b) /\ \A c \in 1..Len(a) : b[c].ok /\ NearA(a[c], b[c], tol)
RandomBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET nd == Len(ev.g.n)  co == ev.where = "collocated"
           t == Tags(ev.g, IF co THEN Centres(nd) ELSE Faces(nd), [c \in 1..nd |-> ev.per], ev.outs) IN
    IF t # {} THEN t
    ELSE UNION {
      IF ~Small(IF co THEN CDiverge(ev.outs) ELSE Diverge(ev.outs), ev.tol) THEN {"not-divergence-free"} ELSE {},
      IF Abs(Peak(ev.outs) - ev.vmax) > 256 THEN {"peak-speed"} ELSE {},
      IF \E c \in 1..nd : Abs(SumS(ev.outs[c].v)) > ev.tol * Len(ev.outs[c].v) THEN {"mean-flow"} ELSE {},
      IF ~Same(ev.outs, ev.again, 16) THEN {"key-not-repeatable"} ELSE {},
      IF Same(ev.outs, ev.other, 16) THEN {"key-ignored"} ELSE {},
      IF \E c \in 2..nd : NearA(ev.outs[1], ev.outs[c], 16) THEN {"same-components"} ELSE {},
      IF ev.high # <<>> /\ ~Related(ev.g, ev.outs, ev.high, ev.j, ev.rtol) THEN {"spectral-shape"} ELSE {} }
FilterBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF ev.out.s # ev.a.s THEN {"size"} ELSE IF ~ev.out.ok THEN {"not-finite"}
  ELSE LET A == Weighted(ev.w, ev.g, ev.a)  B == T!Dft(ev.out) IN
    IF \E k \in 1..Len(A.re) : Abs(A.re[k] - B.re[k]) > ev.tol \/ Abs(A.im[k] - B.im[k]) > ev.tol THEN {"modes"} ELSE {}

\* average power over many keys against the log-normal density
ShellBad(ev) ==
  LET N == Prod(ev.g.n)  K == Len(ev.runs)  nd == Len(ev.g.n)
      pw == TLCEval([r \in 1..K |-> TLCEval([c \in 1..nd |-> LET M == Modes(ev.runs[r][c], N) IN
              TLCEval([k \in 1..N |-> FSq(M.re[k]) + FSq(M.im[k])])])])
      q2(k) == Fo!Wave2(ev.g, Unrav(k - 1, ev.g.n))
      shell(q) == {k \in 1..N : Abs(q2(k) - q) <= 2}
      mean(q) == LET S == SetToSeq(shell(q)) IN SumS([r \in 1..K |-> SumS([c \in 1..nd |-> SumS([k \in 1..Len(S) |-> pw[r][c][S[k]]])])]) \div (K * Len(S))
      k2(q) == FMul(FMul(T!TWOPI, q), T!TWOPI)
      one(k) == SumS([r \in 1..K |-> SumS([c \in 1..nd |-> pw[r][c][k]])]) \div K
      ln(x) == FLn(Max2(x, 4))
  IN  UNION { UNION { LET a == ev.shells[x]  b == ev.shells[y]
                          got == ln(mean(b)) - ln(mean(a))
                          want == LogPower(ev.lm, k2(b), nd) - LogPower(ev.lm, k2(a), nd)
                      IN IF Abs(got - want) > ev.tol THEN {"spectrum-peak"} ELSE {} : y \in (x + 1)..Len(ev.shells) }
              \cup UNION { IF Abs(ln(one(k)) - ln(mean(ev.shells[x]))) > ev.itol THEN {"isotropy"} ELSE {} : k \in shell(ev.shells[x]) }
              : x \in 1..Len(ev.shells) }

FStep(st0, ev) ==
  [st |-> st0, bad |->
    CASE ev.op = "user" -> UserBad(ev)
      [] ev.op = "wrap" -> WrapBad(ev)
      [] ev.op = "random" -> RandomBad(ev)
      [] ev.op = "filter" -> FilterBad(ev)
      [] ev.op = "shells" -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e} ELSE ShellBad(ev)
      [] ev.op = "refuse" -> IF ev.out.e = ev.want THEN {} ELSE {"not-refused"} ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
