------------------------------- MODULE MC_C06 -------------------------------
(* Conservation, steadiness of constants and boundedness of the advection    *)
(* schemes of the specification, exhaustively over small value sets.         *)
EXTENDS Advect
CONSTANTS Dims, N, CVals, UVals, Walls
V102 == {-1, 0, 2}
V101 == {-1, 0, 1}
VARIABLES c, w, dt, stage

G == [n |-> [d \in 1..Dims |-> N], h |-> [d \in 1..Dims |-> IF d = 1 THEN ONE ELSE HALF],
      r |-> [d \in 1..Dims |-> IF d = 1 THEN ONE ELSE 2 * ONE],
      lo |-> [d \in 1..Dims |-> 0], hi |-> [d \in 1..Dims |-> N * (IF d = 1 THEN ONE ELSE HALF)]]
M == Prod(G.n)
BC(t) == [t |-> [d \in 1..Dims |-> t], b |-> [d \in 1..Dims |-> IF t[1] = "D" THEN <<HALF, ONE>> ELSE <<0, 0>>]]
Hom(t) == [t |-> [d \in 1..Dims |-> t], b |-> [d \in 1..Dims |-> <<0, 0>>]]
F(v, o, bc) == [s |-> G.n, v |-> v, o |-> o, g |-> G, bc |-> bc]
Centre == [d \in 1..Dims |-> 2]
Face(k) == [d \in 1..Dims |-> IF d = k THEN 4 ELSE 2]
Vals(S) == { [i \in 1..M |-> x[i] * HALF] : x \in [1..M -> S] }
ScalarBCs == IF Walls THEN {BC(<<"D","D">>), BC(<<"N","N">>)} ELSE {BC(<<"P","P">>)}
UBC == IF Walls THEN Hom(<<"D","D">>) ELSE Hom(<<"P","P">>)
\* 1-D: any face velocity (zero on the wall); 2-D: the discrete curl of a stream function
Vels == IF Dims = 1
        THEN { << F(u, Face(1), UBC) >> : u \in {x \in Vals(UVals) : Walls => x[M] = 0} }
        ELSE { LET p == F(psi, <<4, 4>>, UBC) IN << [Bwd(p, 2) EXCEPT !.bc = UBC], [NegF(Bwd(p, 1)) EXCEPT !.bc = UBC] >>
               : psi \in {x \in Vals(UVals) : Walls => \A i \in 1..M : LET q == Unrav(i - 1, G.n) IN
                                              (q[1] = N - 1 \/ q[2] = N - 1) => x[i] = 0} }
Init == /\ c \in { F(v, Centre, b) : v \in Vals(CVals), b \in ScalarBCs }
        /\ w \in Vels /\ dt \in {ONE \div 4, ONE} /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<c, w, dt>>
Spec == Init /\ [][Next]_<<c, w, dt, stage>>

Schemes == IF Walls THEN {"vanleer"} ELSE {"linear", "upwind", "vanleer2", "vanleer"}
Run(sc) == IF sc = "vanleer" THEN VanLeer(c, w, dt, "mirror") ELSE FluxForm(sc, c, w, dt)
Tol(sc) == 512
DivFree == \A i \in 1..M : Diverge(w).v[i] = 0
Courant == SumS([d \in 1..Dims |-> FMul(FMul(dt, G.r[d]), MaxAbs(w[d]))])
Laws == stage = 1 => \A sc \in Schemes :
  LET a == Run(sc).v  st == [i \in 1..M |-> c.v[i] + FMul(dt, a[i])] IN
  /\ Abs(SumS(a)) <= Tol(sc)                                               \* conservation
  /\ (DivFree /\ \A i \in 1..M : c.v[i] = c.v[1]) => \A i \in 1..M : Abs(a[i]) <= Tol(sc)   \* constants
  /\ (DivFree /\ Courant <= ONE /\ (sc = "upwind" \/ (Dims = 1 /\ sc # "linear")))
       => MaxS(st) <= MaxS(c.v) + Tol(sc) /\ MinS(st) >= MinS(c.v) - Tol(sc)               \* no new extrema
\* the two formulations of the limited scheme agree on periodic data
Agree == (stage = 1 /\ ~Walls) => LET a == Run("vanleer").v  b == Run("vanleer2").v IN
           \A i \in 1..M : Abs(a[i] - b[i]) <= 2048
SelfAdvection == (stage = 1 /\ Dims = 2 /\ ~Walls) => \A i \in 1..2 : Abs(SumS(Convect(w)[i].v)) <= 512
=============================================================================
