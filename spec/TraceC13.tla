------------------------------ MODULE TraceC13 ------------------------------
(* Coarse-graining (C13).                                                    *)
EXTENDS Resize, Diff, Check, TraceData
VARIABLES s, l, st

TOL == 24
Start(sess) == [none |-> 0]
Comp(ev, c) == FaceMean(ev.v[c], c, ev.fac)
\* the coarse field is divergence free where the fine one is
DivBad(ev) ==
  LET fine == Diverge(ev.v)  coarse == Diverge(ev.outs)
      mean == CellMean(fine, [d \in 1..Len(fine.s) |-> ev.fac])
  IN  IF NearA([s |-> coarse.s, v |-> coarse.v], mean, 512) THEN {} ELSE {"divergence"}

FStep(z, ev) ==
  [st |-> z, bad |->
   CASE ev.op = "comp" -> DataBad(ev.out, FaceMean(ev.a, ev.dir, ev.fac), TOL)
     [] ev.op = "stag" ->
          IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
          ELSE IF Len(ev.outs) # Len(ev.v) THEN {"components"}
          ELSE (UNION {
             IF ev.as = "raw" THEN DataBad(ev.outs[c], Comp(ev, c), TOL)
             ELSE IF ev.as = "array" THEN FieldBad(ev.outs[c], Comp(ev, c), ev.v[c].o, ev.g, TOL)
             ELSE VarBad(ev.outs[c], Comp(ev, c), ev.v[c].o, ev.g, ev.v[c].bc, TOL) : c \in 1..Len(ev.v)})
             \cup (IF ev.div THEN DivBad(ev) ELSE {})
     [] ev.op = "tophat" ->
          IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
          ELSE IF Len(ev.outs) # Len(ev.v) THEN {"components"}
          ELSE UNION { VarBad(ev.outs[c], TopHat(ev.v[c], ev.F, ev.fac), ev.v[c].o, ev.g, ev.v[c].bc, TOL) : c \in 1..Len(ev.v)}
     [] ev.op = "spectral" ->
          IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
          ELSE DataBad(ev.re2, SpectralKeep(ev.re, ev.m[1], ev.m[2], ev.scale), TOL)
               \cup DataBad(ev.im2, SpectralKeep(ev.im, ev.m[1], ev.m[2], ev.scale), TOL)
     [] ev.op = "chain" -> DataBad(ev.out, ev.one, TOL)
     [] ev.op = "refuse" -> IF ev.out.e = "" THEN {"not-refused"} ELSE {} ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
