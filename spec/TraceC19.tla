------------------------------ MODULE TraceC19 ------------------------------
(* Recorded forcings against the terms they stand for (C19).                 *)
EXTENDS Forcing, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
Comp(out, e, g, tol) == UNION {
   IF out.s # e.s THEN {"size"} ELSE IF ~out.ok THEN {"not-finite"} ELSE IF ~NearA(e, out, tol) THEN {"values"} ELSE {},
   IF out.o # e.o THEN {"location"} ELSE {}, IF out.g # g THEN {"grid"} ELSE {} }
ForceBad(ev) ==
  IF ~Admissible(ev.e, ev.g, ev.v) THEN (IF ev.out.e = "" THEN {"not-refused"} ELSE {})
  ELSE IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET f == ForceOf(ev.e, ev.g, ev.v) IN
    IF Len(ev.outs) # Len(f) THEN {"components"}
    ELSE UNION { Comp(ev.outs[c], f[c], ev.g, ev.tol) : c \in 1..Len(f) }
BandBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF Len(ev.outs) # Len(ev.v) THEN {"components"}
  ELSE UNION { UNION {
     IF ev.outs[c].s # ev.v[c].s THEN {"size"} ELSE IF ~ev.outs[c].ok THEN {"not-finite"}
     ELSE IF ~SpecNear(ev.e, ev.g, ev.v[c], ev.outs[c], ev.tol) THEN {"modes"} ELSE {},
     IF ev.outs[c].o # ev.v[c].o THEN {"location"} ELSE {},
     IF ev.outs[c].g # ev.g THEN {"grid"} ELSE {} } : c \in 1..Len(ev.v) }
VortBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF ev.out.s # ev.w.s THEN {"size"} ELSE IF ~ev.out.ok THEN {"not-finite"}
  ELSE IF ~CNear(VortForce(ev.g, ev.ku, ev.e, ev.c, ev.w), Real2(HalfOf(Dft(ev.out)), ev.g.n[1], ev.g.n[2]), ev.tol) THEN {"values"} ELSE {}

\* random waves: sums of waves 3..6 on [0, 2 pi]; a is the record at time 0 and location 0
Waves(k, n) == LET f == Abs(FreqOf(n, k)) IN f \in 3..6
Norm2(x) == FSq(x[1]) + FSq(x[2])
RandBad(ev) ==
  LET n == ev.n  F == TLCEval([t \in 1..Len(ev.f) |-> Dft(ev.f[t])])
      at(t, k) == LET x == CAt(F[t], <<k>>) IN <<x[1] \div n, x[2] \div n>>
      \* quarter-cell displacement turns mode k by k o h
      G == Dft(ev.moved)
  IN UNION {
     IF \E t \in 1..Len(ev.f) : \E k \in 0..(n-1) : ~Waves(k, n) /\ Norm2(at(t, k)) > 4 THEN {"wave-number"} ELSE {},
     IF \E t \in 1..Len(ev.f) : MaxAbs(ev.f[t]) > ev.waves * HALF + 64 THEN {"amplitude"} ELSE {},
     IF \E k \in 3..6 : LET y == CMul(CAt(F[1], <<k>>), CExp((k * TWOPI * ev.o) \div (4 * n)))  z == CAt(G, <<k>>) IN
            Abs(y[1] - z[1]) > ev.tol \/ Abs(y[2] - z[2]) > ev.tol THEN {"location"} ELSE {},
     IF ev.waves # 1 THEN {}
     ELSE UNION { UNION {
       \* a single wave keeps its amplitude and turns at a constant rate of at most 0.4
       IF \E t \in 2..Len(ev.f) : Abs(Norm2(at(t, k)) - Norm2(at(1, k))) > 64 THEN {"amplitude-in-time"} ELSE {},
       IF \E t \in 1..(Len(ev.f) - 2) : LET p == CMul(at(t, k), at(t + 2, k))  q == CMul(at(t + 1, k), at(t + 1, k)) IN
            Abs(p[1] - q[1]) > 64 \/ Abs(p[2] - q[2]) > 64 THEN {"phase"} ELSE {},
       LET p == CMul(at(2, k), CConj(at(1, k))) IN
         IF p[1] < FMul(Norm2(at(1, k)), FCos(FMul(104858, ev.dt))) - 64 THEN {"rate"} ELSE {} } : k \in 3..6 },
     IF ev.again # ev.f[1] THEN {"seed-not-repeatable"} ELSE {},
     IF ev.other = ev.f[1] /\ MaxAbs(ev.f[1]) > 4096 THEN {"seed-ignored"} ELSE {} }

\* analytic Taylor-Green flow
TgBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET d == FExpNeg(FDiv(FMul(FMul(ev.nu, ev.time), (ev.kx * ev.kx + ev.ky * ev.ky) * ONE), ev.rho))
           m0 == IF Abs(ev.ky) > Abs(ev.kx) THEN ev.ky ELSE ev.kx
           m  == IF m0 = 0 THEN 1 ELSE m0
           w(c) == Loc(Mk(ev.g.n, LAMBDA i :
              LET X == ev.kx * Turn(ev.g, 1, ev.off[c][1], i[1])  Y == ev.ky * Turn(ev.g, 2, ev.off[c][2], i[2])
              IN  IF c = 1 THEN FMul(FDiv(d * ev.ky, m * ONE), FMul(FCos(X), FSin(Y)))
                  ELSE -FMul(FDiv(d * ev.kx, m * ONE), FMul(FSin(X), FCos(Y)))), ev.off[c])
       IN  IF Len(ev.outs) # 2 THEN {"components"} ELSE UNION { Comp(ev.outs[c], w(c), ev.g, ev.tol) : c \in 1..2 }

FStep(st0, ev) ==
  [st |-> st0, bad |->
    CASE ev.op = "force" -> ForceBad(ev)
      [] ev.op = "band" -> BandBad(ev)
      [] ev.op = "vort" -> VortBad(ev)
      [] ev.op = "waves" -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e} ELSE RandBad(ev)
      [] ev.op = "tgflow" -> TgBad(ev)
      [] ev.op = "refuse" -> IF ev.out.e = ev.want THEN {} ELSE {"not-refused"} ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
