------------------------------ MODULE TraceC20 ------------------------------
(* Recorded time steps of assembled solvers (C20).                           *)
EXTENDS Solver, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
Tags(w, o) == UNION { UNION {
   IF o[k].s # w[k].s THEN {"size"} ELSE {}, IF o[k].o # w[k].o THEN {"location"} ELSE {},
   IF o[k].g # w[k].g THEN {"grid"} ELSE {}, IF o[k].bc # w[k].bc THEN {"boundary-condition"} ELSE {},
   IF o[k].ty # w[k].ty THEN {"dtype"} ELSE {}, IF ~o[k].ok THEN {"not-finite"} ELSE {} } : k \in 1..Len(w) }
AllPer(bc) == \A d \in 1..Len(bc.t) : bc.t[d][1] = "P"
\* consequences on the recorded data itself
Laws(ev) == UNION {
   IF "conserve" \in ToSet(ev.laws) /\ (\E c \in 1..Len(ev.w) : Abs(SumS(ev.outs[c].v) - SumS(ev.w[c].v)) > Len(ev.w[c].v) * ev.mtol)
     THEN {"momentum-changed"} ELSE {},
   IF "still" \in ToSet(ev.laws) /\ (\E c \in 1..Len(ev.w) : \E k \in 1..Len(ev.w[c].v) : Abs(ev.outs[c].v[k] - ev.w[c].v[k]) > ev.mtol)
     THEN {"steady-flow-changed"} ELSE {} }
\* explicit steps; ev.p.mid holds the states between the stages (found independently, checked here)
ExplicitBad(ev) ==
  LET p == ev.p  tab == Tableau(p.tab)
      us == <<ev.w>> \o p.mid
      ks == TLCEval([j \in 1..Len(us) |-> RateOf(p, us[j], TRUE)])
      cand(r) == Candidate(ev.w, p.dt, tab[r], ks)
      rel(a, b) == IF p.alg = "collocated" THEN CoProjRel(a, b, p.tol) ELSE ProjRel(a, b, p.tol)
  IN  (IF Len(p.mid) # Len(tab) - 1 THEN {"stages"} ELSE {})
      \cup UNION { {"stage-" \o x : x \in rel(cand(r), us[r + 1])} : r \in 1..Len(p.mid) }
      \cup rel(cand(Len(tab)), ev.outs)
ImplicitBad(ev) ==
  LET p == ev.p  ks == <<TLCEval(RateOf(p, ev.w, FALSE))>>
      kappa == FMul(Kinematic(p), p.dt)
  IN  ProjRel(Candidate(ev.w, p.dt, <<ONE>>, ks), Undiffused(ev.outs, kappa, p.dt, <<>>), p.tol)
StepBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF Len(ev.outs) # Len(ev.w) THEN {"count"}
  ELSE LET t == Tags(ev.w, ev.outs) IN
    IF t # {} THEN t
    ELSE Laws(ev) \cup (IF ev.p.alg = "implicit" THEN ImplicitBad(ev) ELSE ExplicitBad(ev))
         \cup (IF \E d \in 1..Len(ev.w) : ~WallsRespected(ev.outs[d], 64) THEN {"wall-value"} ELSE {})

\* eddy viscosity on its own: the model viscosity, and the push for any viscosity
SameN(a, b, tol) == \A i \in 1..Len(a) : \A j \in 1..Len(a) : b[i][j].ok /\ b[i][j].s = a[i][j].s /\ NearA(a[i][j], b[i][j], tol)
ViscBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF Len(ev.nu) # Len(ev.w) THEN {"components"}
  ELSE IF ~SameN(Smagorinsky(Strain(ev.w), ev.cs2), ev.nu, ev.tol) THEN {"viscosity"} ELSE {}
EddyBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF Len(ev.outs) # Len(ev.w) THEN {"components"}
  ELSE LET a == Eddy(Strain(ev.w), ev.nu) IN
    UNION { FieldBad(ev.outs[c], a[c], ev.w[c].o, ev.w[c].g, ev.tol) : c \in 1..Len(a) }
    \cup (IF \E c \in 1..Len(ev.w) : ev.outs[c].ok /\ Abs(SumS(ev.outs[c].v)) > ev.tol * Len(ev.w[c].v) THEN {"momentum-changed"} ELSE {})
EvmImplicitBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF Len(ev.outs) # Len(ev.w) THEN {"count"}
  ELSE LET t == Tags(ev.w, ev.outs)  b == Undiffused(ev.outs, FMul(ev.visc, ev.dt), ev.dt, ev.nu) IN
    IF t # {} THEN t ELSE IF \E c \in 1..Len(b) : ~Small(DiffF(b[c], ev.w[c]), ev.tol) THEN {"values"} ELSE {}

\* a time step from a largest speed, refused when explicit diffusion would need a smaller one
Speed(w) == FSqrt(MaxS([k \in 1..Len(w[1].v) |-> SumS([c \in 1..Len(w) |-> FSq(w[c].v[k])])]))
DtBad(ev) ==
  LET um == IF ev.dynamic THEN Speed(ev.w) ELSE ev.umax
      a == FDiv(FMul(ev.cn, MinS(ev.g.h)), um)  b == StableStep(ev.visc, ev.g)
      tol == 64 + a \div 4096
  IN  IF ~ev.implicit /\ b < a - tol THEN RaisedBad(ev.out.e, {"ValueError"})
      ELSE IF ~ev.implicit /\ b <= a + tol /\ ev.out.e = "ValueError" THEN {}
      ELSE IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
      ELSE IF Abs(ev.dtv - a) > tol THEN {"time-step"} ELSE {}

\* learned corrections: base step a x + b, corrector c y + d, on plain arrays
Lin(a, b, x) == [k \in 1..Len(x) |-> FMul(a, x[k]) + b]
CorrectBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF Len(ev.outs) # Len(ev.xs) THEN {"count"}
  ELSE LET n == [c \in 1..Len(ev.xs) |-> Lin(ev.a, ev.b, ev.xs[c].v)]
           e(c) == CASE ev.kind = "v1" -> [k \in 1..Len(n[c]) |-> n[c][k] + Lin(ev.c, ev.d, n[c])[k]]
                     [] ev.kind = "v2" -> [k \in 1..Len(n[c]) |-> n[c][k] + FMul(ev.dt, Lin(ev.c, ev.d, ev.xs[c].v)[k])]
                     [] ev.kind = "v3" -> [k \in 1..Len(n[c]) |-> n[c][k] + FMul(ev.dt, Lin(ev.c, ev.d, ev.xs[c].v)[k] + FMul(ev.c2, n[c][k]))]
                     [] ev.kind = "same" -> ev.xs[c].v
       IN UNION { IF ev.outs[c].s # ev.xs[c].s THEN {"size"} ELSE IF ~ev.outs[c].ok THEN {"not-finite"}
                  ELSE IF \E k \in 1..Len(ev.outs[c].v) : Abs(ev.outs[c].v[k] - e(c)[k]) > 16 THEN {"values"} ELSE {} : c \in 1..Len(ev.xs) }
\* state with channels last: x + dt (net(x) + force(x)); net is a chain of a x + b
RECURSIVE Chain(_, _)
Chain(ab, x) == IF ab = <<>> THEN x ELSE Chain(Tail(ab), Lin(ab[1][1], ab[1][2], x))
NetBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF ev.out.s # ev.x.s THEN {"size"} ELSE IF ~ev.out.ok THEN {"not-finite"}
  ELSE LET nc == ev.x.s[Len(ev.x.s)]  y == Chain(ev.ab, ev.x.v)
           f(k) == LET c == ((k - 1) % nc) + 1  q == ((k - 1) \div nc) + 1 IN ev.F[c].v[q] + FMul(ev.lin, ev.x.v[k])
       IN  IF \E k \in 1..Len(ev.x.v) : Abs(ev.out.v[k] - ev.x.v[k] - FMul(ev.dt, y[k] + f(k))) > 16 THEN {"values"} ELSE {}

FStep(st0, ev) ==
  [st |-> st0, bad |->
    CASE ev.op = "step" -> StepBad(ev)
      [] ev.op = "visc" -> ViscBad(ev)
      [] ev.op = "eddy" -> EddyBad(ev)
      [] ev.op = "evmimplicit" -> EvmImplicitBad(ev)
      [] ev.op = "dt" -> DtBad(ev)
      [] ev.op = "correct" -> CorrectBad(ev)
      [] ev.op = "net" -> NetBad(ev)
      [] ev.op = "refuse" -> RaisedBad(ev.out.e, {ev.want}) ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
