------------------------------- MODULE MC_C08 -------------------------------
(* The implicit relation determines the step (its homogeneous problem has    *)
(* only the zero solution), the explicit step of the stated size conserves   *)
(* insulated totals and creates no new extremum, for every small field.      *)
EXTENDS Diffuse
CONSTANTS Dims, N, Vals, Hs
VARIABLES f, kappa, stage
V102 == {-1, 0, 2}
V01 == {0, 1}

Grids2 == { [n |-> [d \in 1..Dims |-> N], h |-> h, r |-> [d \in 1..Dims |-> FDiv(ONE, h[d])],
             lo |-> [d \in 1..Dims |-> 0], hi |-> [d \in 1..Dims |-> N * h[d]]] : h \in [1..Dims -> Hs] }
H1 == {HALF}
H2 == {HALF, ONE}
\* location and condition per axis: periodic, insulated, cold walls at the centre or edge, mixed
Ax == {<<"P", "P", 2>>, <<"N", "N", 2>>, <<"D", "D", 2>>, <<"D", "D", 4>>, <<"D", "N", 2>>}
Mks == { [t |-> [d \in 1..Dims |-> <<a[d][1], a[d][2]>>], o |-> [d \in 1..Dims |-> a[d][3]]] : a \in [1..Dims -> Ax] }
Init == /\ \E g \in Grids2, m \in Mks, v \in [1..(N ^ Dims) -> Vals] :
             f = [s |-> g.n, v |-> [k \in 1..(N ^ Dims) |-> v[k] * ONE], o |-> m.o, g |-> g,
                  bc |-> [t |-> m.t, b |-> [d \in 1..Dims |-> <<0, 0>>]]]
        /\ \A k \in 1..Len(f.v) : k \notin InteriorPts(f) => f.v[k] = 0
        /\ kappa \in {ONE \div 4, ONE} /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<f, kappa>>
Spec == Init /\ [][Next]_<<f, kappa, stage>>
Zero == [f EXCEPT !.v = [k \in 1..Len(f.v) |-> 0]]
Unique == stage = 1 => (Residual(Zero, f, kappa) = 0 => \A k \in 1..Len(f.v) : f.v[k] = 0)
Stepped == LET L == Rate(f, kappa)  dt == StableStep(kappa, f.g) IN [k \in 1..Len(f.v) |-> f.v[k] + FMul(dt, L.v[k])]
Explicit == stage = 1 => LET x == Stepped IN
   /\ Insulated(f.bc) => SumS(x) = SumS(f.v)
   \* next to a wall half a cell away the ghost value may exceed the extent, so no claim there
   /\ (\A d \in 1..Dims : f.bc.t[d][1] # "D" \/ f.o[d] # 2) =>
      \A k \in InteriorPts(f) : x[k] <= MaxOf(Extent(f)) /\ x[k] >= MinOf(Extent(f))
=============================================================================
