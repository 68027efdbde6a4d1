------------------------------- MODULE MC_C12 -------------------------------
(* The runner as a machine that takes one inner step at a time and records   *)
(* a frame at the stated moments; it produces exactly Frames and StepN, and  *)
(* runs split anywhere are the same run.                                     *)
EXTENDS Unroll
VARIABLES p, x0, outer, inner, start, x, done, i, rec, phase

Init == /\ p \in {[a |-> a, b |-> b, c |-> 1, q |-> q] : a \in {0, 2}, b \in {1, 5}, q \in {0, 1}}
        /\ x0 \in {<<3>>, <<1, 50>>} /\ outer \in 0..3 /\ inner \in 1..3 /\ start \in BOOLEAN
        /\ x = x0 /\ done = 0 /\ i = 0 /\ rec = <<>> /\ phase = "outer"
Begin == /\ phase = "outer" /\ done < outer
         /\ rec' = IF start THEN Append(rec, x) ELSE rec
         /\ phase' = "inner" /\ i' = 0 /\ UNCHANGED <<p, x0, outer, inner, start, x, done>>
Inner == /\ phase = "inner" /\ i < inner /\ x' = Step1(p, x) /\ i' = i + 1
         /\ UNCHANGED <<p, x0, outer, inner, start, done, rec, phase>>
End == /\ phase = "inner" /\ i = inner
       /\ rec' = IF start THEN rec ELSE Append(rec, x)
       /\ done' = done + 1 /\ phase' = "outer" /\ UNCHANGED <<p, x0, outer, inner, start, x, i>>
Next == Begin \/ Inner \/ End
Spec == Init /\ [][Next]_<<p, x0, outer, inner, start, x, done, i, rec, phase>>
Finished == phase = "outer" /\ done = outer
Complete == Finished => /\ x = StepN(p, x0, outer * inner)
                        /\ rec = Frames(p, x0, outer, inner, start, "id")
EachOnce == Len(rec) \in {done, done + 1} /\ (phase = "outer" => Len(rec) = done)
Split == Finished => \A a \in 0..outer :
   LET y == StepN(p, x0, a * inner) IN
   /\ Frames(p, x0, a, inner, start, "sum") \o Frames(p, y, outer - a, inner, start, "sum") = Frames(p, x0, outer, inner, start, "sum")
   /\ StepN(p, y, (outer - a) * inner) = x
Shifted == Finished /\ outer > 0 => LET f == Frames(p, x0, outer, inner, FALSE, "id") g == Frames(p, x0, outer, inner, TRUE, "id")
                        IN g[1] = x0 /\ Tail(g) = SubSeq(f, 1, outer - 1)
=============================================================================
