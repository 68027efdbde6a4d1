------------------------------ MODULE MC_C20 ------------------------------
(* A solver as a sequence of pushes and projections.  Whatever terms are      *)
(* switched on and in whatever order they act, the total momentum of an       *)
(* unforced periodic flow never changes, a uniform flow stays as it is, eddy  *)
(* viscosity only takes energy away, and only the ratio of viscosity to       *)
(* density matters.                                                          *)
EXTENDS Solver
CONSTANTS Shape, Amps, MaxSteps, Schemes
VARIABLES w, w0, how, n, stage

ND == Len(Shape)
N32 == <<3, 2>>
N33 == <<3, 3>>
N3 == <<3>>
GR == [n |-> Shape, h |-> [d \in 1..ND |-> IF d = 1 THEN HALF ELSE ONE], r |-> [d \in 1..ND |-> IF d = 1 THEN 2 * ONE ELSE ONE],
       lo |-> [d \in 1..ND |-> 0], hi |-> [d \in 1..ND |-> (IF d = 1 THEN HALF ELSE ONE) * Shape[d]]]
QUARTER == ONE \div 4
Comp(c, v) == [s |-> Shape, v |-> v, o |-> [d \in 1..ND |-> IF d = c THEN 4 ELSE 2], g |-> GR, bc |-> Periodic(ND), ok |-> TRUE, ty |-> "float64"]
\* velocities from node potentials (two dimensions), or uniform
PsiField(p) == [s |-> Shape, v |-> [k \in 1..Prod(Shape) |-> IF k = 1 THEN 0 ELSE p[k] * QUARTER]]
FromPsi(p) == LET a == PsiField(p) IN
  <<Comp(1, Map2(a, Roll(a, 2, -1), LAMBDA x, y : FMul(x - y, GR.r[2])).v), Comp(2, Map2(a, Roll(a, 1, -1), LAMBDA x, y : FMul(y - x, GR.r[1])).v)>>
Uniform(u) == [c \in 1..ND |-> Comp(c, [k \in 1..Prod(Shape) |-> u[c]])]
Starts == (IF ND = 2 THEN {FromPsi(p) : p \in [2..Prod(Shape) -> Amps]} ELSE {}) \cup {Uniform(u) : u \in [1..ND -> {-HALF, 0, QUARTER}]}
P(sc, cs2, mu, rho) == [alg |-> "explicit", scheme |-> sc, dt |-> ONE \div 16, mu |-> mu, rho |-> rho, viscous |-> mu # 0, cs2 |-> cs2,
                        F |-> [c \in 1..ND |-> [s |-> Shape, v |-> [k \in 1..Prod(Shape) |-> 0]]], lin |-> 0]
Terms == {P(sc, 0, 0, ONE) : sc \in Schemes} \cup {P("none", 0, ONE \div 8, ONE), P("none", ONE \div 16, 0, ONE), P("linear", ONE \div 16, ONE \div 8, 2 * ONE)}

Init == /\ w \in Starts /\ w0 = w /\ how = <<>> /\ n = 0 /\ stage = 0
Step(p) == /\ n < MaxSteps /\ n' = n + 1 /\ stage' = 1 /\ UNCHANGED w0
           /\ w' = Candidate(w, p.dt, <<ONE>>, <<RateOf(p, w, TRUE)>>)
           /\ how' = <<p>>
Next == \E p \in Terms : Step(p)
Spec == Init /\ [][Next]_<<w, w0, how, n, stage>>

Momentum == stage = 1 => \A c \in 1..ND : Abs(SumS(w[c].v) - SumS(w0[c].v)) <= 8 * n * Prod(Shape)
IsUniform(f) == \A c \in 1..ND : \A k \in 1..Prod(Shape) : f[c].v[k] = f[c].v[1]
Steady == stage = 1 /\ IsUniform(w0) => \A c \in 1..ND : \A k \in 1..Prod(Shape) : Abs(w[c].v[k] - w0[c].v[k]) <= 8 * n
Takes == stage = 1 /\ n = 1 => LET e == EddyOf(w0, ONE \div 16) IN
   SumS([c \in 1..ND |-> SumS([k \in 1..Prod(Shape) |-> FMul(w0[c].v[k], e[c].v[k])])]) <= 64
Ratio == stage = 1 /\ n = 1 => LET p == how[1]  q == [p EXCEPT !.mu = 2 * @, !.rho = 2 * @] IN
   \A c \in 1..ND : NearA(RateOf(p, w0, TRUE)[c], RateOf(q, w0, TRUE)[c], 4)
SameForm == stage = 0 /\ "linear" \in Schemes => \A c \in 1..ND : NearA(Convect(w)[c], FluxForm("linear", w[c], w, ONE), 16)
\* a start adorned with the difference of any scalar is projected back to the start, and to nothing else among the starts
Adorned(q) == [c \in 1..ND |-> LET a == [s |-> Shape, v |-> q] IN
   [w[c] EXCEPT !.v = TLCEval([k \in 1..Len(@) |-> w[c].v[k] + Map2(Roll(a, c, 1), a, LAMBDA x, y : FMul(x - y, GR.r[c])).v[k]])]]
Scalars == {[k \in 1..Prod(Shape) |-> IF k = j THEN QUARTER ELSE 0] : j \in 1..Prod(Shape)}
Unique == stage = 0 => \A q \in Scalars : /\ ProjRel(Adorned(q), w, 8) = {}
   /\ \A x \in {Uniform(u) : u \in [1..ND -> {-HALF, 0}]} : x # w => ProjRel(Adorned(q), x, 8) # {}
=============================================================================
