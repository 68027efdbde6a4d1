------------------------------- MODULE MC_C02 -------------------------------
(* Every 1-D and 2-D field with arbitrary previous padding: imposing and     *)
(* removing boundary values.                                                 *)
EXTENDS Boundary, Json
CONSTANTS N, MaxPad, TwoD, GenMode
VARIABLES f, stage

TypePairs == { <<"P","P">>, <<"D","D">>, <<"N","N">>, <<"D","N">>, <<"N","D">> }
\* <<location, size>> of the unpadded axis
Locs(t) == IF "N" \in {t[1], t[2]} THEN {<<2, N>>}
           ELSE IF t[1] = "P" THEN {<<0, N>>, <<2, N>>, <<4, N>>}
           ELSE {<<0, N>>, <<2, N>>, <<4, N>>, <<4, N - 1>>}
Axis == UNION { { [t |-> t, o |-> lc[1] - 4 * a, m |-> lc[2] + a + b]
                  : lc \in Locs(t), a \in 0..MaxPad, b \in 0..MaxPad } : t \in TypePairs }
BV(t, ax) == IF t[1] = "P" THEN <<0, 0>> ELSE <<ONE * ax, -4 * ONE * ax>>
MkF(axs) ==
  LET sh == [d \in 1..Len(axs) |-> axs[d].m] IN
  [ s |-> sh, v |-> [k \in 1..Prod(sh) |-> (7 * k + ((k * k) % 5)) * HALF], o |-> [d \in 1..Len(axs) |-> axs[d].o],
    g |-> [n |-> [d \in 1..Len(axs) |-> N], h |-> [d \in 1..Len(axs) |-> HALF], r |-> [d \in 1..Len(axs) |-> 2 * ONE],
           lo |-> [d \in 1..Len(axs) |-> 0], hi |-> [d \in 1..Len(axs) |-> N * HALF]],
    bc |-> [t |-> [d \in 1..Len(axs) |-> axs[d].t], b |-> [d \in 1..Len(axs) |-> BV(axs[d].t, d)]] ]

\* an upper-edge field without its wall value whose lower side was padded is ambiguous
Fields == IF TwoD THEN { MkF(<<a, b>>) : a \in Axis, b \in Axis } ELSE { MkF(<<a>>) : a \in Axis }

Init == f \in Fields /\ stage = 0 /\ (GenMode => PrintT("GEN " \o ToJson([f |-> f])))
Next == stage = 0 /\ stage' = 1 /\ f' = f
Spec == Init /\ [][Next]_<<f, stage>>

AllAligned == \A ax \in 1..Len(f.s) : Aligned(f, ax) /\ f.s[ax] >= f.g.n[ax] - (IF f.o[ax] = 4 THEN 1 ELSE 0)
PosOf(q, k) == [d \in 1..Len(q.s) |-> q.o[d] + 4 * Unrav(k - 1, q.s)[d]]
InsideP(p) == \A d \in 1..Len(p) : f.bc.t[d][1] = "P" \/ (p[d] > 0 /\ p[d] < 4 * f.g.n[d])
\* interior values are those of the input, at the same positions
Lookup(q, p) == q.v[Rav([d \in 1..Len(p) |-> (p[d] - q.o[d]) \div 4], q.s) + 1]

Idempotent == AllAligned /\ (\A d \in 1..Len(f.o) : f.o[d] >= 0 \/ f.o[d] % 4 # 0 \/ f.bc.t[d][1] = "P") => LET g1 == Impose(f) IN Impose(g1) = g1
Untouched == AllAligned => LET g1 == Impose(f) IN
   \A k \in 1..Len(g1.v) : InsideP(PosOf(g1, k)) => g1.v[k] = Lookup(f, PosOf(g1, k))
WallValues == AllAligned => LET g1 == Impose(f) IN
   \A k \in 1..Len(g1.v) :
     LET p == PosOf(g1, k)  nd == Len(p)
         onwall(d) == f.bc.t[d][1] # "P" /\ (p[d] <= 0 \/ p[d] >= 4 * f.g.n[d])
     IN  \A d \in 1..nd :
           onwall(d) /\ (\A e \in (d+1)..nd : ~onwall(e)) =>
             /\ p[d] \in {0, 4 * f.g.n[d]}
             /\ g1.v[k] = (IF p[d] = 0 THEN f.bc.b[d][1] ELSE f.bc.b[d][2])
InteriorOnly == AllAligned => LET g1 == Interior(f) IN
   /\ \A k \in 1..Len(g1.v) : InsideP(PosOf(g1, k)) /\ g1.v[k] = Lookup(f, PosOf(g1, k))
   /\ \A d \in 1..Len(f.s) : f.bc.t[d][1] = "P" => g1.s[d] = f.g.n[d]
   /\ Interior(Impose(f)) = g1
Domain == AllAligned => LET g1 == Impose(f) IN
   \A d \in 1..Len(f.s) : g1.s[d] <= f.g.n[d] /\ (f.o[d] \in {0, 2, 4} => g1.o[d] = f.o[d])
=============================================================================
