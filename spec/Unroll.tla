------------------------------- MODULE Unroll -------------------------------
(* Repeated application of a step: what a run, a trajectory and a decoded    *)
(* trajectory must contain, for an integer toy dynamics modulo M.            *)
EXTENDS Integers, Sequences, TLC, SequencesExt

M == 97
Step1(p, x) == TLCEval([i \in 1..Len(x) |->
   LET y == x[(i % Len(x)) + 1] IN (p.a * x[i] + p.b * y + p.c + p.q * x[i] * y) % M])
RECURSIVE StepN(_, _, _)
StepN(p, x, n) == IF n = 0 THEN x ELSE StepN(p, Step1(p, x), n - 1)
\* post-processing of a frame
Post(k, x) == CASE k = "id" -> x
                [] k = "affine" -> [i \in 1..Len(x) |-> (3 * x[i] + 1) % M]
                [] k = "first" -> <<x[1]>>
                [] k = "sum" -> << FoldLeft(LAMBDA a, b : a + b, 0, x) % M >>
\* the recorded frames: after every `inner` steps, or before them
Frame(p, x, inner, start, post, j) == Post(post, StepN(p, x, inner * (IF start THEN j - 1 ELSE j)))
Frames(p, x, outer, inner, start, post) == [j \in 1..outer |-> Frame(p, x, inner, start, post, j)]
Encode(x) == [i \in 1..Len(x) |-> (x[i] + 1) % M]
Decode(x) == [i \in 1..Len(x) |-> (x[i] + 5) % M]
=============================================================================
