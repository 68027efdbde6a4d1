------------------------------ MODULE MC_C18 ------------------------------
(* Histories of a training session: train on a batch, evaluate, average over  *)
(* a stream, snapshot and restore the state.  Generates the histories the     *)
(* harness replays, and checks what must hold after every one of them.        *)
EXTENDS Training, Json, FiniteSets
CONSTANTS NB, MaxLen, GenMode
VARIABLES ts, saved, hist, last

Batch(i) == << [s |-> <<2, 1, 1>>, v |-> <<i * HALF, ONE - i * HALF>>],
               [s |-> <<2, 1, 1>>, v |-> <<-ONE, i * (HALF \div 2)>>] >>
P0 == [a |-> HALF, b |-> <<0, HALF>>]
Z0 == [a |-> 0, b |-> <<0, 0>>]
Start0 == [step |-> 0, os |-> [p |-> P0, m |-> Z0]]
Eval1(st, i) == LossOf(st.os.p, Batch(i), 2, ONE)

Init == ts = Start0 /\ saved = Start0 /\ hist = <<>> /\ last = 0
Log(o) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, o)
          /\ (GenMode => PrintT("GEN " \o ToJson([h |-> hist'])))
Train(i) == /\ ts' = Train1(ts, Batch(i), 2, ONE) /\ Log([op |-> "train", b |-> <<i>>])
            /\ last' = Eval1(ts, i) /\ UNCHANGED saved
Evaluate(i) == Log([op |-> "eval", b |-> <<i>>]) /\ last' = Eval1(ts, i) /\ UNCHANGED <<ts, saved>>
Stream(q) == /\ Log([op |-> "mean", b |-> q])
             /\ last' = IF q = <<>> THEN 0 ELSE MeanOf([k \in 1..Len(q) |-> Eval1(ts, q[k])])
             /\ UNCHANGED <<ts, saved>>
Save == Log([op |-> "save", b |-> <<>>]) /\ saved' = ts /\ UNCHANGED <<ts, last>>
Restore == Log([op |-> "restore", b |-> <<>>]) /\ ts' = saved /\ UNCHANGED <<saved, last>>
Streams == {<<>>, <<1, 2>>, <<2, 1>>, <<NB, 1, NB>>}
Next == (\E i \in 1..NB : Train(i) \/ Evaluate(i)) \/ (\E q \in Streams : Stream(q)) \/ Save \/ Restore
Spec == Init /\ [][Next]_<<ts, saved, hist, last>>

\* the sequence of batches that leads to the current state
RECURSIVE Path(_, _, _)
Path(k, cur, sv) ==
  IF k > Len(hist) THEN cur
  ELSE CASE hist[k].op = "train" -> Path(k + 1, cur \o hist[k].b, sv)
         [] hist[k].op = "save" -> Path(k + 1, cur, cur)
         [] hist[k].op = "restore" -> Path(k + 1, sv, sv)
         [] OTHER -> Path(k + 1, cur, sv)
RECURSIVE Run(_, _)
Run(st, q) == IF q = <<>> THEN st ELSE Run(Train1(st, Batch(q[1]), 2, ONE), Tail(q))

StepCounts == ts.step = Len(Path(1, <<>>, <<>>))
StateIsTheReplay == ts = Run(Start0, Path(1, <<>>, <<>>))
\* a mean does not depend on the order of the batches
OrderFree == \A i, j \in 1..NB : MeanOf(<<Eval1(ts, i), Eval1(ts, j)>>) = MeanOf(<<Eval1(ts, j), Eval1(ts, i)>>)
\* a small step along the gradient does not increase the loss (to first order)
Descent == \A i \in 1..NB :
   LET g == GradOf(ts.os.p, Batch(i), 2, ONE)
       q == [a |-> ts.os.p.a - (g.a \div 4096), b |-> [c \in 1..2 |-> ts.os.p.b[c] - (g.b[c] \div 4096)]]
   IN  LossOf(q, Batch(i), 2, ONE) <= LossOf(ts.os.p, Batch(i), 2, ONE) + 64
=============================================================================
