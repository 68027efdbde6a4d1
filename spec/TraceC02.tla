------------------------------ MODULE TraceC02 ------------------------------
(* Imposing boundary values and removing them (C02).                         *)
EXTENDS Boundary, TraceData
VARIABLES s, l, st

TOL == 8
Expect(f, ev) ==
  CASE ev.op = "impose"    -> Impose(f)
    [] ev.op = "interior"  -> Interior(f)
    [] ev.op = "padimpose" -> PadToWall(f, ev.to)

Refuse(f) == \E ax \in 1..Len(f.g.n) : ~Aligned(f, ax) \/ EdgeNeumann(f, ax)

Start(sess) == [dummy |-> 0]
FStep(f, ev) ==
  IF ev.op = "new" THEN [st |-> ev.f, bad |-> {}]
  ELSE IF Refuse(f)
       THEN [st |-> f, bad |-> IF ev.out.e \in {"ValueError", "NotImplementedError"} THEN {} ELSE {"not-refused"}]
  ELSE LET e == Expect(f, ev)  out == ev.out
       IN [st |-> [f EXCEPT !.s = e.s, !.v = e.v, !.o = e.o],
           bad |-> IF out.e # "" THEN {"raised-" \o out.e}
                   ELSE UNION {
                     IF out.s # e.s THEN {"size"}
                     ELSE IF ~out.ok THEN {"not-finite"}
                     ELSE IF ~NearA(e, out, IF ev.op = "interior" THEN 0 ELSE TOL) THEN {"values"} ELSE {},
                     IF out.o # e.o THEN {"location"} ELSE {},
                     IF out.g # f.g THEN {"grid"} ELSE {},
                     IF ev.op # "interior" /\ out.bc # f.bc THEN {"boundary-condition"} ELSE {},
                     IF out.ty # f.ty THEN {"dtype"} ELSE {} }]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
