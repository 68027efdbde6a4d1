------------------------------ MODULE MC_C21 ------------------------------
(* The life of a starting velocity: sampled noise, then weights, projections *)
(* and normalisations in any order.  The state keeps the parts apart (what   *)
(* is solenoidal, what is a gradient, the mean), so that a projection is     *)
(* simply the loss of one part.  Checked: the pieces stay what they are      *)
(* under weighting, weighting and projecting commute, projecting never       *)
(* brings anything back, and once weighted, projected and normalised - the   *)
(* normalisation last - a state is admissible.                               *)
EXTENDS Initial
CONSTANTS Shape, Amps, MaxOps
VARIABLES sol, grad, mean, ops, stage
N33 == <<3, 3>>
N32 == <<3, 2>>
N22 == <<2, 2>>
GR == [n |-> Shape, h |-> <<HALF, ONE>>, r |-> <<2 * ONE, ONE>>, lo |-> <<0, 0>>, hi |-> <<HALF * Shape[1], ONE * Shape[2]>>]
QUARTER == ONE \div 4
NN == Prod(Shape)
Per == [t |-> <<<<"P", "P">>, <<"P", "P">>>>, b |-> <<<<0, 0>>, <<0, 0>>>>]
Comp(c, v) == [s |-> Shape, v |-> v, o |-> [d \in 1..2 |-> IF d = c THEN 4 ELSE 2], g |-> GR, bc |-> Per, ok |-> TRUE, ty |-> "float64"]
Node(p) == [s |-> Shape, v |-> [k \in 1..NN |-> IF k = 1 THEN 0 ELSE p[k] * QUARTER]]
Curled(p) == LET a == Node(p) IN
  <<Comp(1, Map2(a, Roll(a, 2, -1), LAMBDA x, y : FMul(x - y, GR.r[2])).v), Comp(2, Map2(a, Roll(a, 1, -1), LAMBDA x, y : FMul(y - x, GR.r[1])).v)>>
Graded(q) == [c \in 1..2 |-> LET a == Node(q) IN Comp(c, Map2(Roll(a, c, 1), a, LAMBDA x, y : FMul(x - y, GR.r[c])).v)]
Flat(u) == [c \in 1..2 |-> Comp(c, [k \in 1..NN |-> u[c]])]
Sum3(a, b, d) == TLCEval([c \in 1..2 |-> [a[c] EXCEPT !.v = TLCEval([k \in 1..NN |-> a[c].v[k] + b[c].v[k] + d[c].v[k]])]])
All == Sum3(sol, grad, mean)
\* weighting in place: inverse transform by conjugation
BackT(A) == LET B == T!DftAll([A EXCEPT !.im = TLCEval([k \in 1..Len(A.im) |-> -A.im[k]])], 2) IN
  [s |-> A.s, v |-> TLCEval([k \in 1..Len(B.re) |-> B.re[k] \div NN])]
Apply(w, f) == TLCEval([c \in 1..2 |-> Comp(c, BackT(Weighted(w, GR, f[c])).v)])
Weights == {<<ONE, 0, 0, 0>>, <<0, QUARTER \div 8, 0, 0>>, <<0, 0, 0, 4 * ONE>>}
ZeroV == Flat(<<0, 0>>)
Few == {p \in [2..NN -> Amps] : Cardinality({k \in 2..NN : p[k] # 0}) <= 2}
Init == /\ sol \in {Curled(p) : p \in Few} /\ grad \in {Graded(q) : q \in {z \in Few : Cardinality({k \in 2..NN : z[k] # 0}) <= 1}}
        /\ mean \in {Flat(<<0, 0>>), Flat(<<QUARTER, -HALF>>)} /\ ops = <<>> /\ stage = 0
Weigh(w) == /\ sol' = Apply(w, sol) /\ grad' = Apply(w, grad) /\ mean' = ZeroV /\ ops' = Append(ops, "w")
Project == /\ grad' = ZeroV /\ UNCHANGED <<sol, mean>> /\ ops' = Append(ops, "p")
Times(f, m, p) == TLCEval([c \in 1..2 |-> [f[c] EXCEPT !.v = TLCEval([k \in 1..NN |-> FMul(FDiv(f[c].v[k], p), m)])]])
Normalise(m) == /\ Peak(All) > 32768
                /\ LET p == Peak(All) IN sol' = Times(sol, m, p) /\ grad' = Times(grad, m, p) /\ mean' = Times(mean, m, p)
                /\ ops' = Append(ops, "n")
Next == /\ Len(ops) < MaxOps /\ stage' = 1
        /\ \/ \E w \in Weights : Weigh(w)
           \/ Project
           \/ Normalise(2 * ONE)
Spec == Init /\ [][Next]_<<sol, grad, mean, ops, stage>>
TOL == 4096
Has(x) == \E k \in 1..Len(ops) : ops[k] = x
LastIs(x) == Len(ops) > 0 /\ ops[Len(ops)] = x
Parts == stage = 1 => /\ Small(Diverge(sol), TOL) /\ IsGradient(grad, TOL) /\ (\A c \in 1..2 : Abs(SumS(sol[c].v)) <= TOL /\ Abs(SumS(grad[c].v)) <= TOL)
Projected == stage = 1 => ProjRel(All, Sum3(sol, ZeroV, mean), TOL) = {}
NotElse == (stage = 1 /\ \A c \in 1..2 : MaxAbs(grad[c]) > 8 * TOL) => ProjRel(All, All, 8) # {}
Admissible == stage = 1 /\ Has("w") /\ Has("p") /\ LastIs("n") =>
   /\ Small(Diverge(All), TOL) /\ Abs(Peak(All) - 2 * ONE) <= TOL /\ \A c \in 1..2 : Abs(SumS(All[c].v)) <= TOL
\* two densities whose ratio is |k|: the heavier-tailed state is the gradient-weighted one
Twin == stage = 0 /\ MaxAbs(sol[1]) + MaxAbs(sol[2]) > 0 => Related(GR, sol, Apply(<<0, QUARTER, 0, 0>>, sol), 1, 512)
\* the logarithm this rests on
Logs == stage = 0 => \A x \in {40000, 262144, 300000, 500000, 1000000, 5000000} :
   /\ Abs(FLn(x) + FLn(FDiv(ONE, x))) <= 64 /\ Abs(FLn(FMul(x, x)) - 2 * FLn(x)) <= 64
   /\ (FLn(x) <= 0 => Abs(T!FExpNeg(-FLn(x)) - x) <= 64)
LogsAt == stage = 0 => Abs(FLn(712572) - ONE) <= 16
=============================================================================
