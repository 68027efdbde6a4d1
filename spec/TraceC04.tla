------------------------------ MODULE TraceC04 ------------------------------
(* Difference operators: every recorded result is the stated quotient at the *)
(* stated location; composed identities vanish.                              *)
EXTENDS Diff, Check, TraceData
VARIABLES s, l, st

TOL == 40
Start(sess) == [none |-> 0]
Same(qs) == \A k \in 1..Len(qs) : qs[k] = qs[1]
LocErr == {"InconsistentOffsetError", "InconsistentGridError"}

One(ev, e) == FieldBad(ev.out, e, e.o, e.g, TOL)
Summed(ev, parts) == \* a sum of fields that must share their location
  IF Same([k \in 1..Len(parts) |-> parts[k].o]) THEN One(ev, SumFields(parts))
  ELSE RaisedBad(ev.out.e, LocErr)

FStep(st0, ev) ==
  LET w == ev.f  nd == Len(w[1].o) IN
  [st |-> st0, bad |->
    CASE ev.op = "fwd" -> One(ev, Fwd(w[1], ev.ax))
      [] ev.op = "bwd" -> One(ev, Bwd(w[1], ev.ax))
      [] ev.op = "ctr" -> One(ev, Ctr(w[1], ev.ax))
      [] ev.op = "lap" -> One(ev, Laplace(w[1]))
      [] ev.op = "div" -> IF Len(w) # nd THEN RaisedBad(ev.out.e, {"ValueError"})
                          ELSE Summed(ev, [d \in 1..nd |-> Bwd(w[d], d)])
      [] ev.op = "cdiv" -> IF Len(w) # nd THEN RaisedBad(ev.out.e, {"ValueError"})
                          ELSE Summed(ev, [d \in 1..nd |-> Ctr(w[d], d)])
      [] ev.op = "curl2" -> IF Len(w) # 2 \/ nd # 2 THEN RaisedBad(ev.out.e, {"ValueError"})
                            ELSE Summed(ev, << Fwd(w[2], 1), NegF(Fwd(w[1], 2)) >>)
      [] ev.op = "curl3" ->
           IF Len(w) # 3 \/ nd # 3 THEN RaisedBad(ev.out.e, {"ValueError"})
           ELSE IF \E a, b \in 1..3 : a < b /\ MovLoc(w[a].o, b, 2) # MovLoc(w[b].o, a, 2)
                THEN RaisedBad(ev.out.e, LocErr)
           ELSE IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
           ELSE LET e == Curl3(w) IN
             UNION {FieldBad(ev.outs[k], e[k], e[k].o, e[k].g, TOL) : k \in 1..3}
      [] ev.op = "multi" ->  \* one result per axis
           IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
           ELSE IF Len(ev.outs) # Len(ev.axes) THEN {"count"}
           ELSE UNION {LET a == ev.axes[k]
                           e == CASE ev.fn = "fwd" -> Fwd(w[1], a) [] ev.fn = "bwd" -> Bwd(w[1], a)
                                  [] ev.fn = "ctr" -> Ctr(w[1], a)
                       IN FieldBad(ev.outs[k], e, e.o, e.g, TOL) : k \in 1..Len(ev.axes)}
      [] ev.op = "grad" ->   \* gradient of a scalar or of each component: outs[ax][component]
           IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
           ELSE IF ev.shape # (IF ev.vec THEN <<nd, Len(w)>> ELSE <<nd>>) THEN {"tensor-shape"}
           ELSE UNION {LET e == GradVec(w[c]) IN
                       UNION {FieldBad(ev.outs[a][c], e[a], e[a].o, e[a].g, TOL) : a \in 1..nd} : c \in 1..Len(w)}
      [] ev.op = "zero" ->   \* a composition that must vanish identically
           IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
           ELSE IF ~ev.out.ok \/ (\E k \in 1..Len(ev.out.v) : Abs(ev.out.v[k]) > 64) THEN {"identity"} ELSE {}
      [] ev.op = "equal" ->
           IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
           ELSE IF ~ev.out.ok \/ ev.out.s # ev.out2.s \/ ev.out.o # ev.out2.o \/ ~NearA(ev.out, ev.out2, 64)
           THEN {"identity"} ELSE {}
      [] ev.op = "number" ->
           IF Abs(ev.a - ev.b) > 256 THEN {"identity"} ELSE {} ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
