------------------------------- MODULE MC_C24 -------------------------------
(* Differentiating a history.  A run of N steps of a quadratic map keeps only  *)
(* some of its states (checkpoints, chosen freely); a perturbation is pushed   *)
(* forward step by step; a cotangent is pulled back, recomputing dropped       *)
(* states from the latest checkpoint.  Whatever was kept, the perturbation is  *)
(* the linear term of the whole map (dual numbers), and pull-back and push-    *)
(* forward are adjoint.  Arithmetic is exact, in the ring of integers mod M.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS M, N, Maps, Covs
VARIABLES map, x0, t0, c0, x, t, i, saved, phase, c

Z == 0..(M - 1)
Some == {<< <<1, 1>>, <<0, 1>>, 1 >>, << <<2, 0>>, <<1, 1>>, 2 >>, << <<0, 1>>, <<1, 0>>, 1 >>}
More == {<< <<a, b>>, <<1, d>>, q >> : a, b, d \in {0, 1, 2}, q \in {1, 2}}
Two == {<<1, 0>>, <<1, 2>>}
All2 == Z \X Z
Inv2 == (M + 1) \div 2
\* map: <<A (2x2), q>>: f(x) = A x + q * (x1*x2, x1*x1)
Q(m, a) == <<(m[1][1] * a[1] + m[1][2] * a[2] + m[3] * a[1] * a[2]) % M, (m[2][1] * a[1] + m[2][2] * a[2] + m[3] * a[1] * a[1]) % M>>
Add(a, b) == <<(a[1] + b[1]) % M, (a[2] + b[2]) % M>>
Sub(a, b) == <<(a[1] - b[1]) % M, (a[2] - b[2]) % M>>
\* polarisation: exact for quadratic maps
D(m, a, h) == LET d == Sub(Q(m, Add(a, h)), Q(m, Sub(a, h))) IN <<(d[1] * Inv2) % M, (d[2] * Inv2) % M>>
E1 == <<1, 0>>
E2 == <<0, 1>>
DotZ(a, b) == (a[1] * b[1] + a[2] * b[2]) % M
DT(m, a, h) == <<DotZ(D(m, a, E1), h), DotZ(D(m, a, E2), h)>>
RECURSIVE Run(_, _, _)
Run(m, a, n) == IF n = 0 THEN a ELSE Run(m, Q(m, a), n - 1)
\* dual numbers: pairs (value, first order term), multiplied out
DualQ(m, a, h) == <<Q(m, a), <<(m[1][1] * h[1] + m[1][2] * h[2] + m[3] * (a[1] * h[2] + h[1] * a[2])) % M,
                               (m[2][1] * h[1] + m[2][2] * h[2] + 2 * m[3] * a[1] * h[1]) % M>>>>
RECURSIVE Dual(_, _, _, _)
Dual(m, a, h, n) == IF n = 0 THEN <<a, h>> ELSE LET r == DualQ(m, a, h) IN Dual(m, r[1], r[2], n - 1)

Init == /\ map \in Maps /\ x0 \in Z \X Z /\ t0 \in {E1, E2} /\ c0 \in Covs
        /\ x = x0 /\ t = t0 /\ i = 0 /\ saved = <<>> /\ phase = "forward" /\ c = c0
Keep(b) == IF b THEN Append(saved, <<i, x>>) ELSE saved
Forward == /\ phase = "forward" /\ i < N
           /\ \E b \in IF i = 0 THEN {TRUE} ELSE BOOLEAN : saved' = Keep(b)
           /\ x' = Q(map, x) /\ t' = D(map, x, t) /\ i' = i + 1
           /\ UNCHANGED <<map, x0, t0, c0, phase, c>>
Turn == /\ phase = "forward" /\ i > 0 /\ phase' = "backward" /\ UNCHANGED <<map, x0, t0, c0, x, t, i, saved, c>>
Latest(k) == LET S == {j \in 1..Len(saved) : saved[j][1] <= k} IN saved[CHOOSE j \in S : \A q \in S : q <= j]
StateAt(k) == LET s == Latest(k) IN Run(map, s[2], k - s[1])
Backward == /\ phase = "backward" /\ i > 0
            /\ c' = DT(map, StateAt(i - 1), c) /\ i' = i - 1
            /\ UNCHANGED <<map, x0, t0, c0, x, t, saved, phase>>
Next == Forward \/ Turn \/ Backward
vars == <<map, x0, t0, c0, x, t, i, saved, phase, c>>
Spec == Init /\ [][Next]_vars

PushedForward == phase = "forward" => <<x, t>> = Dual(map, x0, t0, i)
Adjoint == (phase = "backward" /\ i = 0) => DotZ(c0, t) = DotZ(c, t0)
Recomputed == phase = "backward" => \A k \in 0..i : StateAt(k) = Run(map, x0, k)
\* half way back: the pulled-back covector pairs with the perturbation at that time
Half == phase = "backward" => DotZ(c, Dual(map, x0, t0, i)[2]) = DotZ(c0, t)
=============================================================================
