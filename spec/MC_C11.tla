------------------------------- MODULE MC_C11 -------------------------------
(* Laws of the semi-implicit steppers of the specification over a family of  *)
(* small problems: steady states stay, stages solve their equations, and     *)
(* with one part absent each reduces to the other scheme.                    *)
EXTENDS Steppers
VARIABLES p, u, dt, name, stage

Names == {"backward_forward_euler", "crank_nicolson_rk2", "crank_nicolson_rk3", "crank_nicolson_rk4", "imex_rk_sil3"}
Probs == { [c |-> <<x * HALF, ONE \div 4>>, A |-> <<<<a * HALF, HALF>>, <<-HALF, b * HALF>>>>, q |-> <<q * HALF, 0>>, P |-> "none",
            g |-> <<g * ONE, -h * ONE>>, d |-> <<0, d * HALF>>] :
           x \in {0, 1}, a \in {-1, 0}, b \in {0, 1}, q \in {0, 1}, g \in {-1, 0}, h \in {0, 4}, d \in {0, 1} }
Init == /\ p \in Probs /\ u \in {<<ONE, -HALF>>, <<HALF, 2 * ONE>>} /\ dt \in {ONE \div 8, ONE \div 2}
        /\ name \in Names /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<p, u, dt, name>>
Spec == Init /\ [][Next]_<<p, u, dt, name, stage>>
St(pp) == ImplicitStep([name |-> name, co |-> <<>>], pp, u, dt)
Near(a, b, t) == \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= t
\* explicit part cancelled against the implicit part at u
Balanced == LET g == Imp(p, u) f == RHS([p EXCEPT !.c = <<0, 0>>, !.q = <<0, 0>>], u)
            IN [p EXCEPT !.q = <<0, 0>>, !.c = <<-g[1] - f[1], -g[2] - f[2]>>]
Steady == stage = 1 => Near(St(Balanced), u, 64)
NoImp == [p EXCEPT !.g = <<0, 0>>, !.d = <<0, 0>>]
NoExp == [p EXCEPT !.c = <<0, 0>>, !.A = <<<<0, 0>>, <<0, 0>>>>, !.q = <<0, 0>>]
HeunTab == [a |-> <<<<ONE>>>>, b |-> <<HALF, HALF>>]
SilTab == [a |-> SIL3.aex, b |-> SIL3.bex]
ExplicitLimit == stage = 1 =>
  CASE name = "backward_forward_euler" -> Near(St(NoImp), ExplicitStep(NoImp, ForwardEuler, u, dt), 16)
    [] name = "crank_nicolson_rk2" -> Near(St(NoImp), ExplicitStep(NoImp, HeunTab, u, dt), 16)
    [] name = "imex_rk_sil3" -> Near(St(NoImp), ExplicitStep(NoImp, SilTab, u, dt), 16)
    [] OTHER -> TRUE
\* the implicit part alone: the stated implicit equation
ImplicitLimit == stage = 1 =>
  LET y == St(NoExp) IN
  CASE name = "backward_forward_euler" -> Near(VAxpy(y, -dt, Imp(NoExp, y)), u, 64)
    [] name = "crank_nicolson_rk2" -> Near(VAxpy(y, -dt \div 2, Imp(NoExp, y)), VAxpy(u, dt \div 2, Imp(NoExp, u)), 64)
    [] OTHER -> TRUE
\* the trapezoidal coefficients of the low-storage schemes are consistent with their explicit increments
RECURSIVE Inc(_, _, _)
Inc(co, k, h) == IF k > Len(co.beta) THEN TRUE
                 ELSE LET h2 == ONE + FMul(co.beta[k], h) IN Abs(FMul(co.gamma[k], h2) - (co.alpha[k + 1] - co.alpha[k])) <= 16
                                                             /\ Inc(co, k + 1, h2)
Consistent == Inc(Williamson, 1, 0) /\ Inc(Carpenter, 1, 0)
Sum(x) == SumS(x)
SilConsistent == /\ Abs(Sum(SIL3.bex) - ONE) <= 8 /\ Abs(Sum(SIL3.bim) - ONE) <= 8
                 /\ \A i \in 1..Len(SIL3.aex) : Abs(Sum(SIL3.aex[i]) - Sum(SIL3.aim[i])) <= 8
=============================================================================
