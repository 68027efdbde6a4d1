------------------------------ MODULE TraceC07 ------------------------------
(* Pressure projection: a result is accepted exactly when it is divergence   *)
(* free, differs from the input by a discrete gradient, keeps the walls and  *)
(* its tags -- these conditions determine it uniquely.                       *)
EXTENDS LinOp, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
Diff2(a, b) == [a EXCEPT !.v = TLCEval([k \in 1..Len(a.v) |-> a.v[k] - b.v[k]])]
Zero(f, tol) == \A k \in 1..Len(f.v) : Abs(f.v[k]) <= tol
AllPer(bc) == \A d \in 1..Len(bc.t) : bc.t[d][1] = "P"
Kernel(bc) == \A d \in 1..Len(bc.t) : "D" \notin {bc.t[d][1], bc.t[d][2]}

Tags(w, o) == UNION { IF o[k].s # w[k].s THEN {"size"} ELSE {} : k \in 1..Len(w) }
   \cup UNION { IF o[k].o # w[k].o THEN {"location"} ELSE {} : k \in 1..Len(w) }
   \cup UNION { IF o[k].g # w[k].g THEN {"grid"} ELSE {} : k \in 1..Len(w) }
   \cup UNION { IF o[k].bc # w[k].bc THEN {"boundary-condition"} ELSE {} : k \in 1..Len(w) }
   \cup UNION { IF ~o[k].ok THEN {"not-finite"} ELSE {} : k \in 1..Len(w) }

\* collocated: the change is a central difference, i.e. on each parity class
CoGradient(w, q, tol) == \A d \in 1..Len(w) : Zero(Diff2(w[d], Ctr(q, d)), tol)

ProjBad(ev) ==
  LET w == ev.w  o == ev.outs IN
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF Len(o) # Len(w) THEN {"count"}
  ELSE LET t == Tags(w, o) IN
    IF t # {} THEN t
    ELSE UNION {
      IF ~Zero(Diverge(o), ev.tol) THEN {"not-divergence-free"} ELSE {},
      IF ~IsGradient([d \in 1..Len(w) |-> Diff2(w[d], o[d])], ev.tol) THEN {"not-a-gradient"} ELSE {},
      IF \E d \in 1..Len(w) : ~WallsRespected(o[d], 64) THEN {"wall-value"} ELSE {},
      IF Zero(Diverge(w), 4) /\ (\A d \in 1..Len(w) : WallsRespected(w[d], 0)) /\ (\E d \in 1..Len(w) : ~Zero(Diff2(w[d], o[d]), ev.tol))
        THEN {"solenoidal-input-changed"} ELSE {} }

CoProjBad(ev) ==
  LET w == ev.w  o == ev.outs IN
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF Len(o) # Len(w) THEN {"count"}
  ELSE LET t == Tags(w, o) IN
    IF t # {} THEN t
    ELSE UNION {
      IF ~Zero(CDiverge(o), ev.tol) THEN {"not-divergence-free"} ELSE {},
      IF ~CoGradient([d \in 1..Len(w) |-> Diff2(w[d], o[d])], [ev.q EXCEPT !.bc = ev.qbc], ev.tol) THEN {"not-a-gradient"} ELSE {},
      IF Zero(CDiverge(w), 4) /\ (\E d \in 1..Len(w) : ~Zero(Diff2(w[d], o[d]), ev.tol))
        THEN {"solenoidal-input-changed"} ELSE {} }

\* a pressure solve with a stated boundary condition: Laplacian(q) = div v, up to the kernel
SolveBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF ev.out.s # ev.w[1].g.n \/ ~ev.out.ok THEN {"size"}
  ELSE LET q == [ev.w[1] EXCEPT !.s = ev.out.s, !.v = ev.out.v, !.o = ev.out.o, !.bc = ev.qbc]
           d == Diverge(ev.w)
           m == IF Kernel(ev.qbc) THEN SumS(d.v) \div Len(d.v) ELSE 0
           L == Laplace(q)
       IN (IF ev.out.o # d.o THEN {"location"} ELSE
           IF \E k \in 1..Len(d.v) : Abs(L.v[k] - (d.v[k] - m)) > ev.tol THEN {"poisson-residual"} ELSE {})

FStep(st0, ev) ==
  [st |-> st0, bad |->
    CASE ev.op = "project" -> ProjBad(ev)
      [] ev.op = "coproject" -> CoProjBad(ev)
      [] ev.op = "cosolve" -> \* central differences of the solution reproduce the centred divergence
           IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
           ELSE LET q == [ev.w[1] EXCEPT !.s = ev.out.s, !.v = ev.out.v, !.o = ev.out.o, !.bc = ev.qbc]
                    L == CDiverge([d \in 1..Len(ev.w) |-> Ctr(q, d)])
                IN IF ~Zero(Diff2(L, CDiverge(ev.w)), ev.tol) THEN {"poisson-residual"} ELSE {}
      [] ev.op = "solve" -> SolveBad(ev)
      [] ev.op = "refuse" -> RaisedBad(ev.out.e, {ev.want}) ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
