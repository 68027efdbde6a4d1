------------------------------ MODULE MC_C05 ------------------------------
(* A field is moved from location to location.  Constants and totals survive *)
(* every move, nothing leaves the range of the values, affine fields are      *)
(* reproduced, donors are neighbours, limited values lie between the          *)
(* neighbours for every velocity, and points agree with nodes and faces.      *)
EXTENDS Interp, FiniteSets
CONSTANTS N, Vals, MaxMoves, Kind
VARIABLES f0, f, moves, u
V3 == {-1, 0, 2}
V4 == {-1, 0, 1, 3}
G == [n |-> <<N>>, h |-> <<HALF>>, r |-> <<2 * ONE>>, lo |-> <<ONE>>, hi |-> <<ONE + N * HALF>>]
BCs == IF Kind = "P" THEN {[t |-> <<<<"P", "P">>>>, b |-> <<<<0, 0>>>>]}
       ELSE {[t |-> <<<<x, y>>>>, b |-> <<<<ONE, -HALF>>>>] : x, y \in {"D", "N"}}
F(v, o, bc) == [s |-> <<N>>, v |-> v, o |-> <<o>>, g |-> G, bc |-> bc]
Cells == {[i \in 1..N |-> x[i] * 16384] : x \in [1..N -> Vals]}        \* sixteenths
Us == {[i \in 1..N |-> x[i] * HALF] : x \in [1..N -> {-1, 0, 1}]}
Init == /\ \E v \in Cells, b \in BCs : f0 = F(v, 2, b)
        /\ f = f0 /\ moves = 0 /\ \E w \in (IF Kind = "P" THEN Us ELSE {[i \in 1..N |-> 0]}) : u = [s |-> <<N>>, v |-> w, o |-> <<4>>, g |-> G]
Move(to) == f' = [Linear(f, <<to>>) EXCEPT !.v = TLCEval(@)]
Next == moves < MaxMoves /\ moves' = moves + 1 /\ UNCHANGED <<f0, u>> /\ Kind = "P" /\ (\A i \in 1..N : u.v[i] = 0) /\ \E to \in {0, 1, 2, 4, 6, 8} : Move(to)
Spec == Init /\ [][Next]_<<f0, f, moves, u>>
Same(v) == \A k \in 1..Len(v) : v[k] = v[1]
\* moves on a periodic domain: totals, constants, range
Moving == Kind = "P" => /\ Abs(SumS(f.v) - SumS(f0.v)) <= N * moves /\ MaxS(f.v) <= MaxS(f0.v) /\ MinS(f.v) >= MinS(f0.v) - moves
                        /\ (Same(f0.v) => f.v = f0.v) /\ Len(f.v) = N
\* only whole steps: the same values elsewhere
Whole == (Kind = "P" /\ moves = 0) => \A k \in -2..2 : LET a == Linear(f0, <<2 + 4 * k>>) IN
   a.v = TLCEval([i \in 1..N |-> f0.v[((i - 1 + k) % N) + 1]])
\* affine on walls that prescribe the affine field
Affine == (Kind = "W" /\ moves = 0) => \A a \in {-2048, 0, 4096} : \A b \in {-1024, 0, 2048} : \A t \in {<<"D", "D">>, <<"N", "N">>, <<"D", "N">>} :
   LET val(p) == a + (b * p) \div 4
       bc == [t |-> <<t>>, b |-> <<<<IF t[1] = "D" THEN val(0) ELSE 2 * b, IF t[2] = "D" THEN val(4 * N) ELSE 2 * b>>>>]
       l == F([i \in 1..N |-> val(2 + 4 * (i - 1))], 2, bc)
   IN  \A to \in {0, 1, 3, 4} : LET r == Linear(l, <<to>>) IN \A i \in 1..N : Abs(r.v[i] - val(to + 4 * (i - 1))) <= 2
Nbr(i, k) == f0.v[((i - 1 + k) % N) + 1]
Between(x, a, b, tol) == x >= Min2(a, b) - tol /\ x <= Max2(a, b) + tol
Donors == (Kind = "P" /\ moves = 0) => LET a == Upwind(f0, 1, u) IN \A i \in 1..N :
   a.v[i] = (IF u.v[i] > 0 THEN Nbr(i, 0) ELSE Nbr(i, 1))
Names == {"van_leer", "minmod", "superbee", "zero", "one"}
LimitedLaws == (Kind = "P" /\ moves = 0) => \A dt \in {ONE \div 4, ONE} : LET hi == LaxWendroff(f0, 1, u, dt) IN
   /\ \A i \in 1..N : Between(hi.v[i], Nbr(i, 0), Nbr(i, 1), 4)         \* under the step limit the wave value is a blend
   /\ \A nm \in Names : LET a == Limited(f0, 1, u, hi, nm) IN
        /\ \A i \in 1..N : Between(a.v[i], Nbr(i, 0), Nbr(i, 1), 8)
        /\ (nm = "zero" => a.v = Upwind(f0, 1, u).v)
        /\ (nm = "one" => \A i \in 1..N : Abs(a.v[i] - hi.v[i]) <= 2)
\* limiters are within the second-order region
Region == moves = 0 => \A nm \in {"van_leer", "minmod", "superbee"} : \A r \in {-2 * ONE, -1, 0, 1, HALF, ONE, 2 * ONE, 5 * ONE} : LET y == Limiter(nm, r) IN
   /\ y >= 0 /\ y <= 2 * ONE /\ (r <= 0 => y = 0) /\ y <= Max2(0, 2 * r) + 4 /\ (r = ONE => Abs(y - ONE) <= 4)
Modes == {"nearest", "wrap", "mirror", "reflect", "constant"}
Points == moves = 0 => \A mode \in Modes :
   /\ \A i \in 1..N : PointInterp(f0, <<G.lo[1] + (i - 1) * HALF + HALF \div 2>>, mode, 0, 1) = f0.v[i]
   /\ \A i \in 1..(N - 1) : Abs(PointInterp(f0, <<G.lo[1] + i * HALF>>, mode, 0, 1) - (f0.v[i] + f0.v[i + 1]) \div 2) <= 1
   /\ \A p \in {-3 * ONE, 0, ONE + 1234, 2 * ONE, 7 * ONE + 77} : LET x == PointInterp(f0, <<p>>, mode, f0.v[1], 1) IN
        x >= MinS(f0.v) - 2 /\ x <= MaxS(f0.v) + 2
WrapFaces == (Kind = "P" /\ moves = 0) => LET a == Linear(f0, <<4>>) IN \A i \in 1..N : \A k \in -1..1 :
   Abs(PointInterp(f0, <<G.lo[1] + (i + k * N) * HALF>>, "wrap", 0, 1) - a.v[i]) <= 2
=============================================================================
