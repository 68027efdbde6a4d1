------------------------------ MODULE TraceC10 ------------------------------
EXTENDS Steppers, Check, TraceData
VARIABLES s, l, st

Start(sess) == [u |-> [v |-> <<>>, struct |-> ""], p |-> [none |-> 0]]

FStep(st0, ev) ==
  IF ev.op = "new" THEN [st |-> [u |-> [v |-> ev.u.v, struct |-> ev.u.struct], p |-> ev.p], bad |-> {}]
  ELSE IF ev.op = "step" THEN
    LET tab == IF ev.name = "custom" THEN ev.tab ELSE Named(ev.name)
        e == ExplicitStep(st0.p, tab, st0.u.v, ev.dt)
    IN  IF ev.out.e # "" THEN [st |-> st0, bad |-> {"raised-" \o ev.out.e}]
        ELSE IF ev.out.struct # st0.u.struct THEN [st |-> st0, bad |-> {"structure"}]
        ELSE [st |-> [st0 EXCEPT !.u.v = ev.out.v],
              bad |-> IF ~ev.out.ok THEN {"not-finite"}
                      ELSE IF \E i \in 1..Len(e) : Abs(e[i] - ev.out.v[i]) > 128 THEN {"stage-combination"} ELSE {}]
  ELSE [st |-> st0, bad |->
    CASE ev.op = "order" -> IF ev.e # "" THEN {"raised-" \o ev.e}
                            ELSE IF ev.slope < ev.p - ONE \div 4 THEN {"order-of-accuracy"} ELSE {}
      [] ev.op = "refuse" -> RaisedBad(ev.out.e, {ev.want}) ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
