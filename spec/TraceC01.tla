------------------------------ MODULE TraceC01 ------------------------------
(* Histories of extend / cut / shift calls on one field (C01).               *)
(* The model state is the field the specification says the caller holds.     *)
EXTENDS Boundary, TraceData
VARIABLES s, l, st

TOL == 8

Expect(f, ev) ==
  CASE ev.op = "pad"    -> PadAxis(f, ev.ax, ev.w, ev.mode)
    [] ev.op = "pad2"   -> PadBoth(f, ev.ax, ev.w2[1], ev.w2[2], ev.mode)
    [] ev.op = "padall" -> PadAll(f, ev.ws, ev.mode)
    [] ev.op = "shift"  -> ShiftAxis(f, ev.ax, ev.w, ev.mode)
    [] ev.op = "trim"   -> TrimAxis(f, ev.ax, ev.w)

\* A call must be refused when the field lacks interior values (size too small)
MustRefuse(f, ev) ==
  \/ ev.op = "pad" /\ (~Aligned(f, ev.ax) \/ EdgeNeumann(f, ev.ax))
  \/ ev.op = "pad2" /\ (~Aligned(f, ev.ax) \/ EdgeNeumann(f, ev.ax))

FieldClauses(e, out, ty) ==
  IF out.e # "" THEN {"raised-" \o out.e}
  ELSE UNION {
    IF out.s # e.s THEN {"size"} ELSE
      IF ~out.ok THEN {"not-finite"}
      ELSE IF ~NearA(e, out, TOL) THEN {"values"} ELSE {},
    IF out.o # e.o THEN {"location"} ELSE {},
    IF out.g # e.g THEN {"grid"} ELSE {},
    IF out.ty # ty THEN {"dtype"} ELSE {} }

Start(sess) == [dummy |-> 0]
FStep(f, ev) ==
  IF ev.op = "new" THEN [st |-> ev.f, bad |-> {}]
  ELSE IF ev.op = "values" THEN
    LET Drop(q, a) == SubSeq(q, 1, a - 1) \o SubSeq(q, a + 1, Len(q))
        ok(side) == LET o == ev.out[side] IN
           IF f.bc.t[ev.ax][1] = "P" /\ ev.none THEN o.s = <<0>> /\ o.e = "None"
           ELSE /\ o.e = "" /\ o.ok
                /\ o.s = Drop(f.g.n, ev.ax)
                /\ \A k \in 1..Len(o.v) : o.v[k] = f.bc.b[ev.ax][side]
    IN [st |-> f, bad |-> IF ok(1) /\ ok(2) THEN {} ELSE {"boundary-values"}]
  ELSE IF MustRefuse(f, ev)
       THEN [st |-> f, bad |-> IF ev.out.e \in {"ValueError", "NotImplementedError"} THEN {} ELSE {"not-refused"}]
  ELSE LET e == Expect(f, ev)
           bad == FieldClauses(e, ev.out, f.ty)
       IN  [st |-> [f EXCEPT !.s = e.s, !.v = e.v, !.o = e.o], bad |-> bad]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
