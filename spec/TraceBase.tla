----------------------------- MODULE TraceBase -----------------------------
(* Generic trace validation.  A trace file holds recorded sessions; each     *)
(* session is a behaviour of the specification: a sequence of public calls   *)
(* with their arguments and results.  Step(st, ev) is the specification's    *)
(* transition: from model state st it returns the next model state and the   *)
(* set of clauses the recorded event violates.  The verdict is total: every  *)
(* event of every session is examined, and failing clauses are printed.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Trace, Start(_), Step(_, _)
VARIABLES s, l, st

TInit == /\ s \in 1..Len(Trace)
         /\ l = 0
         /\ st = Start(Trace[s])

TNext == /\ l < Len(Trace[s].ev)
         /\ l' = l + 1
         /\ s' = s
         /\ LET ev == Trace[s].ev[l + 1]
                r  == IF ev.op = "unexpected"
                      THEN [st |-> st, bad |-> {"unexpected-exception"}]
                      ELSE Step(st, ev)
            IN  /\ st' = r.st
                /\ IF r.bad = {} THEN TRUE
                   ELSE PrintT("BAD " \o ToJson([id |-> Trace[s].id, l |-> l + 1,
                                                 op |-> ev.op, k |-> ev.k, bad |-> r.bad]))
TSpec == TInit /\ [][TNext]_<<s, l, st>>
TView == <<s, l>>
=============================================================================
