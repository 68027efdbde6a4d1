------------------------------- MODULE MC_C07 -------------------------------
(* The relations of TraceC07 determine the projection uniquely: a field that *)
(* is a discrete gradient, divergence free and zero on the walls is zero,    *)
(* and every discrete gradient is recognised as one.                         *)
EXTENDS LinOp
CONSTANTS Dims, N1, N2, Vals, Walls
W00 == {<<>>}
VARIABLES w, bt, stage

G == [n |-> IF Dims = 1 THEN <<N1>> ELSE <<N1, N2>>, h |-> IF Dims = 1 THEN <<HALF>> ELSE <<HALF, ONE>>,
      r |-> IF Dims = 1 THEN <<2 * ONE>> ELSE <<2 * ONE, ONE>>, lo |-> [d \in 1..Dims |-> 0],
      hi |-> IF Dims = 1 THEN <<N1 * HALF>> ELSE <<N1 * HALF, N2 * ONE>>]
M == Prod(G.n)
BC(t, kind) == [t |-> [d \in 1..Dims |-> IF t[d] THEN <<kind, kind>> ELSE <<"P", "P">>], b |-> [d \in 1..Dims |-> <<0, 0>>]]
Face(c) == [d \in 1..Dims |-> IF d = c THEN 4 ELSE 2]
Fld(v, o, bc) == [s |-> G.n, v |-> v, o |-> o, g |-> G, bc |-> bc]
V101 == {-1, 0, 1}
V01 == {0, 1}
\* face fields, zero on the walls
OK(c, v, t) == \A k \in 1..M : LET i == Unrav(k - 1, G.n) IN (t[c] /\ i[c] = G.n[c] - 1) => v[k] = 0
Init == /\ bt \in [1..Dims -> Walls] /\ stage = 0
        /\ w \in [1..Dims -> [1..M -> Vals]]
        /\ \A c \in 1..Dims : OK(c, w[c], bt)
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<w, bt>>
Spec == Init /\ [][Next]_<<w, bt, stage>>

V == [c \in 1..Dims |-> Fld([k \in 1..M |-> w[c][k] * ONE], Face(c), BC(bt, "D"))]
Unique == stage = 1 => ((IsGradient(V, 0) /\ \A k \in 1..M : Diverge(V).v[k] = 0) => \A c \in 1..Dims : \A k \in 1..M : w[c][k] = 0)
\* component 1 of w, read as a pressure, has a recognisable gradient
Q == Fld([k \in 1..M |-> w[1][k] * ONE], [d \in 1..Dims |-> 2], BC(bt, "N"))
GradOk == stage = 1 => IsGradient([c \in 1..Dims |-> [Fwd(Q, c) EXCEPT !.bc = BC(bt, "D")]], 0)
\* the Neumann pressure gradient vanishes on the walls, so subtracting it keeps the walls
WallsKept == stage = 1 => \A c \in 1..Dims : WallsRespected([Fwd(Q, c) EXCEPT !.bc = BC(bt, "D")], 0)
\* divergence of a wall-respecting field sums to zero: the pressure equation is solvable
Solvable == stage = 1 => SumS(Diverge(V).v) = 0
=============================================================================
