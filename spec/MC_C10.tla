------------------------------- MODULE MC_C10 -------------------------------
(* The stepper as a machine: evaluate, combine, project, for every small     *)
(* problem, projection and tableau.  It computes the closed form, never      *)
(* evaluates the right-hand side off the constraint set after the first      *)
(* stage, and the named tableaux satisfy their order conditions.             *)
EXTENDS Steppers, FiniteSets
VARIABLES p, tab, u0, dt, k, cur, phase, seen

Probs == { [c |-> <<0, ONE \div 4>>, A |-> <<<<a * HALF, b * HALF>>, <<-b * HALF, HALF>>>>, q |-> <<q * HALF, 0>>, P |-> pr] :
           a \in {-1, 0, 1}, b \in {-1, 1}, q \in {0, 1}, pr \in {"none", "mean", "clip"} }
Customs == { [a |-> <<<<x * HALF>>, <<y * HALF, ONE>>>>, b |-> <<z * HALF, 0, HALF>>] : x \in {0, 1}, y \in {-1, 0}, z \in {0, 1} }
Init == /\ p \in Probs /\ tab \in {ForwardEuler, Midpoint, Heun, Classic4} \cup Customs
        /\ u0 \in {<<ONE, -HALF>>, <<0, 2 * ONE>>} /\ dt \in {ONE \div 4, ONE}
        /\ k = <<>> /\ cur = u0 /\ phase = "eval" /\ seen = {}
\* evaluate the right-hand side at the current stage state
Eval == /\ phase = "eval" /\ k' = Append(k, TLCEval(RHS(p, cur))) /\ phase' = "combine" /\ seen' = seen \cup {<<Len(k), cur>>}
        /\ UNCHANGED <<p, tab, u0, dt, cur>>
Combine == /\ phase = "combine"
           /\ LET w == IF Len(k) < Len(tab.b) THEN tab.a[Len(k)] ELSE tab.b
              IN cur' = VAxpy(u0, dt, Comb(w, k, 1, Len(u0)))
           /\ phase' = "project" /\ UNCHANGED <<p, tab, u0, dt, k, seen>>
Project == /\ phase = "project" /\ cur' = TLCEval(Proj(p, cur))
           /\ phase' = IF Len(k) < Len(tab.b) THEN "eval" ELSE "done"
           /\ UNCHANGED <<p, tab, u0, dt, k, seen>>
Next == Eval \/ Combine \/ Project
Spec == Init /\ [][Next]_<<p, tab, u0, dt, k, cur, phase, seen>>

Closed == phase = "done" => cur = ExplicitStep(p, tab, u0, dt)
OnConstraint == /\ \A x \in seen : x[1] > 0 => (\A i \in 1..2 : Abs(Proj(p, x[2])[i] - x[2][i]) <= 2)
                /\ phase = "done" => \A i \in 1..2 : Abs(Proj(p, cur)[i] - cur[i]) <= 2
Terminates == Len(k) <= Len(tab.b)

\* order conditions of the named tableaux
C(t, i) == IF i = 1 THEN 0 ELSE SumS(t.a[i - 1])
A(t, i, j) == IF i > 1 /\ j <= Len(t.a[i - 1]) THEN t.a[i - 1][j] ELSE 0
S(t, E(_)) == SumS([i \in 1..Len(t.b) |-> FMul(t.b[i], E(i))])
AC(t, i) == SumS([j \in 1..Len(t.b) |-> FMul(A(t, i, j), C(t, j))])
AC2(t, i) == SumS([j \in 1..Len(t.b) |-> FMul(A(t, i, j), FSq(C(t, j)))])
AAC(t, i) == SumS([j \in 1..Len(t.b) |-> FMul(A(t, i, j), AC(t, j))])
Is(x, q, r) == Abs(x - FRat(q, r)) <= 16
Order(t, n) ==
  /\ Is(SumS(t.b), 1, 1)
  /\ n >= 2 => Is(S(t, LAMBDA i : C(t, i)), 1, 2)
  /\ n >= 3 => Is(S(t, LAMBDA i : FSq(C(t, i))), 1, 3) /\ Is(S(t, LAMBDA i : AC(t, i)), 1, 6)
  /\ n >= 4 => /\ Is(S(t, LAMBDA i : FMul(C(t, i), FSq(C(t, i)))), 1, 4) /\ Is(S(t, LAMBDA i : FMul(C(t, i), AC(t, i))), 1, 8)
               /\ Is(S(t, LAMBDA i : AC2(t, i)), 1, 12) /\ Is(S(t, LAMBDA i : AAC(t, i)), 1, 24)
Orders == phase = "done" => Order(ForwardEuler, 1) /\ Order(Midpoint, 2) /\ Order(Heun, 2) /\ Order(Classic4, 4)
                            /\ ~Order(Midpoint, 3) /\ ~Order(Heun, 3) /\ ~Order(ForwardEuler, 2)
=============================================================================
