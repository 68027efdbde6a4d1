------------------------------ MODULE TraceC15 ------------------------------
(* Array utilities (C15).  A tree is a sequence of leaves; `same` records    *)
(* whether the tree structure of the result is that of the argument.         *)
EXTENDS ArrUtil, Check, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
SliceLeaf(ev, a) ==
  LET ax == NormAxis(ev.ax, Len(a.s)) IN
  IF ev.isint THEN PickAt(a, ax, ev.idx) ELSE Take(a, ax, SliceSeq(a.s[ax], ev.sl[1], ev.sl[2], ev.sl[3]))
Tree(ev, outs, E(_), leaves) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF ~ev.same THEN {"tree-structure"}
  ELSE IF Len(outs) # Len(leaves) THEN {"leaves"}
  ELSE UNION { DataBad(outs[k], E(leaves[k]), 1) \cup (IF outs[k].ty = leaves[k].ty THEN {} ELSE {"dtype"}) : k \in 1..Len(leaves) }

FStep(z, ev) ==
  [st |-> z, bad |->
   CASE ev.op = "slice" -> Tree(ev, ev.outs, LAMBDA a : SliceLeaf(ev, a), ev.tree)
     [] ev.op = "split" ->
          Tree(ev, ev.outs, LAMBDA a : LET ax == NormAxis(ev.ax, Len(a.s)) IN Take(a, ax, SliceSeq(a.s[ax], <<0>>, <<ev.at>>, << >>)), ev.tree)
          \cup Tree(ev, ev.outs2, LAMBDA a : LET ax == NormAxis(ev.ax, Len(a.s)) IN Take(a, ax, SliceSeq(a.s[ax], <<ev.at>>, << >>, << >>)), ev.tree)
     [] ev.op = "join" -> Tree(ev, ev.outs, LAMBDA a : a, ev.tree)
     [] ev.op = "splitaxis" ->
          LET n == ev.tree[1].s[NormAxis(ev.ax, Len(ev.tree[1].s))] IN
          IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
          ELSE IF Len(ev.parts) # n THEN {"count"}
          ELSE UNION { Tree(ev, ev.parts[j], LAMBDA a : LET ax == NormAxis(ev.ax, Len(a.s)) IN
                   IF ev.keep THEN Take(a, ax, <<j - 1>>) ELSE Pick(a, ax, j - 1), ev.tree) : j \in 1..n }
     [] ev.op = "blocks" -> DataBad(ev.out, Blocks(ev.a, ev.b, ev.f), 4)
     [] ev.op = "interp" ->
          IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
          ELSE LET e == Table(ev.x, ev.y, NormAxis(ev.ax, Len(ev.y.s)), ev.q, ev.mode, ev.fill) IN
               IF ev.out.s # e.s THEN {"size"}
               ELSE IF \E k \in 1..Len(e.v) : Abs(e.v[k] - ev.out.v[k]) > 128 THEN {"values"} ELSE {}
     [] ev.op = "qr" -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
          ELSE IF ~(ev.q.ok /\ ev.r.ok) THEN {"not-finite"} ELSE QRBad(ev.a, ev.q, ev.r, ev.tol)
     [] ev.op = "refuse" -> IF ev.out.e = "" THEN {"not-refused"} ELSE {} ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
