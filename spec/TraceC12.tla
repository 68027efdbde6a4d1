------------------------------ MODULE TraceC12 ------------------------------
EXTENDS Unroll, Check, TraceData
VARIABLES s, l, st

Start(sess) == [x |-> <<0>>, p |-> [none |-> 0], struct |-> ""]

FinalBad(st0, out, e) == (IF out.struct # st0.struct THEN {"structure"} ELSE {})
                         \cup (IF out.v # e THEN {"final-state"} ELSE {})
FramesBad(fr, e) == IF Len(fr) # Len(e) THEN {"number-of-frames"}
                    ELSE IF \E j \in 1..Len(e) : fr[j] # e[j] THEN {"frames"} ELSE {}
FStep(st0, ev) ==
  IF ev.op = "new" THEN [st |-> [x |-> ev.x.v, p |-> ev.p, struct |-> ev.x.struct], bad |-> {}]
  ELSE IF ev.op = "refuse" THEN [st |-> st0, bad |-> RaisedBad(ev.out.e, {ev.want})]
  ELSE IF ev.out.e # "" THEN [st |-> st0, bad |-> {"raised-" \o ev.out.e}]
  ELSE CASE ev.op = "run" ->
         LET e == StepN(st0.p, st0.x, ev.n) IN [st |-> [st0 EXCEPT !.x = e], bad |-> FinalBad(st0, ev.out, e)]
    [] ev.op = "traj" ->
         LET e == StepN(st0.p, st0.x, ev.outer * ev.inner) IN
         [st |-> [st0 EXCEPT !.x = e],
          bad |-> FinalBad(st0, ev.out, e) \cup FramesBad(ev.frames, Frames(st0.p, st0.x, ev.outer, ev.inner, ev.start, ev.post))]
    [] ev.op = "decoded" ->   \* input frames, then decoded unroll from the encoded last input frame
         LET x0 == Encode(ev.frames_in[ev.init])
             e == StepN(st0.p, x0, ev.outer * ev.inner)
             un == Frames(st0.p, x0, ev.outer, ev.inner, FALSE, "id")
         IN [st |-> st0,
             bad |-> (IF ev.out.v # e THEN {"final-state"} ELSE {})
               \cup FramesBad(ev.frames, SubSeq(ev.frames_in, 1, ev.init) \o [j \in 1..ev.outer |-> Decode(un[j])])]
    [] ev.op = "once" ->  \* inside an initialisation context the step is evaluated once
         LET e == IF ev.nested THEN StepN(st0.p, st0.x, 1) ELSE Step1(st0.p, st0.x) IN
         [st |-> st0, bad |-> FinalBad(st0, ev.out, e) \cup FramesBad(ev.frames, [j \in 1..ev.n |-> e])
                              \cup (IF ev.calls # 1 THEN {"evaluated-more-than-once"} ELSE {})]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
