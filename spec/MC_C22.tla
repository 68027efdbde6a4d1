------------------------------ MODULE MC_C22 ------------------------------
(* A stored snapshot that is translated, negated, doubled or mirrored.  What *)
(* is derived from it must follow: spectra, shell sums and correlations do   *)
(* not see translations and grow with the square of the size, the curl moves *)
(* with the flow, a state correlates with itself whatever its size.  Also    *)
(* the laws of the summaries themselves: Parseval, shells that neither miss  *)
(* nor repeat a mode, Cauchy-Schwarz, quantiles in order, distances.         *)
EXTENDS Dataset
CONSTANTS Shape, Amps, Filled, MaxOps
VARIABLES w0, w, shift, size, ops
N32 == <<3, 2>>
Tern == {-1, 0, 1}
N43 == <<4, 3>>
NN == Prod(Shape)
GR == [n |-> Shape, h |-> <<HALF, ONE>>, r |-> <<2 * ONE, ONE>>, lo |-> <<ONE, 0>>, hi |-> <<ONE + HALF * Shape[1], ONE * Shape[2]>>]
LL == <<GR.hi[1] - GR.lo[1], GR.hi[2] - GR.lo[2]>>
Arr1(f) == [s |-> Shape, v |-> TLCEval([k \in 1..NN |-> f[k] * HALF])]
Few == TLCEval({f \in [1..NN -> Amps] : Cardinality({k \in 1..NN : f[k] # 0}) <= Filled})
Init == /\ \E f \in Few, h \in {x \in Few : Cardinality({k \in 1..NN : x[k] # 0}) <= 1} : w0 = <<Arr1(f), Arr1(h)>>
        /\ w = w0 /\ shift = <<0, 0>> /\ size = 1 /\ ops = 0
Both(F(_)) == TLCEval(<<F(w[1]), F(w[2])>>)
Translate(d) == w' = Both(LAMBDA a : Roll(a, d, 1)) /\ shift' = [shift EXCEPT ![d] = (@ + 1) % Shape[d]] /\ UNCHANGED size
Negate == w' = Both(LAMBDA a : Map1(a, LAMBDA x : -x)) /\ size' = -size /\ UNCHANGED shift
Double == size \in {-1, 1} /\ w' = Both(LAMBDA a : Map1(a, LAMBDA x : 2 * x)) /\ size' = 2 * size /\ UNCHANGED shift
Next == /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED w0
        /\ \/ \E d \in 1..2 : Translate(d)
           \/ Negate
           \/ Double
vars == <<w0, w, shift, size, ops>>
Spec == Init /\ [][Next]_vars
TOL == 2048
Sq == size * size
Still(a, b, tol) == NearA(Map1(a, LAMBDA x : Sq * x), b, tol)
Moved(a) == Map1(Roll(Roll(a, 1, shift[1]), 2, shift[2]), LAMBDA x : size * x)
Follow == w = TLCEval(<<Moved(w0[1]), Moved(w0[2])>>)
SpectrumLaw == LET E == Spectrum(w) IN
  /\ Still(Spectrum(w0), E, TOL)
  /\ Abs((SumS(E.v) \div NN) - SumS(Energy(w).v)) <= TOL          \* Parseval
  /\ \A k \in 1..NN : E.v[k] >= 0 /\ LET i == Unrav(k - 1, Shape)      \* the spectrum of a real flow is symmetric
        j == [d \in 1..2 |-> (2 * (Shape[d] \div 2) - i[d])] IN
        ((\A d \in 1..2 : j[d] < Shape[d]) => Abs(E.v[k] - At(E, j)) <= TOL)
Top == (TopUnits(Shape, LL) + ONE) \div ONE
\* every mode is below the first shell, in exactly one shell, or above the last one
ShellOf(q, j) == q > Half2(j - 1, LL) /\ q <= Half2(j, LL)
Shells == ops = 0 => \A k \in 1..NN : LET q == FreqSq(Shape, LL, Unrav(k - 1, Shape)) IN
  Cardinality({j \in 1..Top : ShellOf(q, j)}) + (IF q <= Half2(0, LL) THEN 1 ELSE 0) + (IF q > Half2(Top, LL) THEN 1 ELSE 0) = 1
Correlation == \A c \in 1..2 : \A ax \in 1..2 : LET a == AutoCorr(w0[c], ax)  b == AutoCorr(w[c], ax)  lines == TLCEval({k \in 1..Len(b.v) : Unrav(k - 1, b.s)[ax] = 0}) IN
  /\ Abs(Sq * SumS(a.v) - SumS(b.v)) <= 64      \* lines may be permuted, their correlations are not changed
  /\ \A k \in lines : b.v[k] >= -1 /\ \A m \in 1..Len(b.v) :
        ((\A d \in 1..2 : d # ax => Unrav(m - 1, b.s)[d] = Unrav(k - 1, b.s)[d]) => Abs(b.v[m]) <= b.v[k] + 4)
Curl == LET z0 == Vorticity(w0, GR)  z == Vorticity(w, GR) IN
  /\ NearA(Moved(z0), z, 64) /\ Abs(SumS(z.v)) <= 64
  /\ (\A k \in 1..NN : Enstrophy(w, GR).v[k] >= 0)
  /\ SumS(Energy(w).v) >= 0 /\ Abs(SumS(Map1(Speed(w), LAMBDA x : FSq(x) \div 2).v) - SumS(Energy(w).v)) <= 256
\* a field made of differences of node values has no vorticity
NoCurl == ops = 0 => LET p == w0[1]
    gx == Map2(Roll(p, 1, 1), p, LAMBDA x, y : FDiv(x - y, Spacing(GR, 1)))
    gy == Map2(Roll(p, 2, 1), p, LAMBDA x, y : FDiv(x - y, Spacing(GR, 2)))
  IN  \A k \in 1..NN : Abs(Vorticity(<<gx, gy>>, GR).v[k]) <= 64
All(x) == x[1].v \o x[2].v
Nonzero(v) == \E k \in 1..Len(v) : v[k] # 0
Unitary == Nonzero(All(w)) => LET a == Unit(All(w)) IN
  /\ Abs(Dot(a, a) - ONE) <= 128
  /\ LET c == Dot(a, Unit(All(w0))) IN Abs(c) <= ONE + 128 /\ (shift = <<0, 0>> => Abs(c - (IF size > 0 THEN ONE ELSE -ONE)) <= 128)
Qs == <<0, ONE \div 4, HALF, (3 * ONE) \div 4, ONE>>
Quantiles == LET v == All(w) IN
  /\ Quantile(v, 0) = MinS(v) /\ Quantile(v, ONE) = MaxS(v)
  /\ \A j \in 1..4 : Quantile(v, Qs[j]) <= Quantile(v, Qs[j + 1])
Positive(v) == [k \in 1..Len(v) |-> ONE + Abs(v[k])]
Distances == LET a == Positive(All(w))  b == Positive(All(w0))  c == [k \in 1..Len(a) |-> ONE + (k % 3) * HALF] IN
  /\ Distance(a, a, HALF) = 0 /\ LogDistance(a, a, HALF) = 0
  /\ Distance(a, b, HALF) = Distance(b, a, HALF) /\ Distance(a, b, HALF) <= Distance(a, c, HALF) + Distance(c, b, HALF)
  /\ LogDistance(a, b, HALF) <= LogDistance(a, c, HALF) + LogDistance(c, b, HALF) + 16
  /\ Abs(LogDistance([k \in 1..Len(a) |-> 2 * a[k]], a, HALF) - Len(a) * LN2) <= 64
=============================================================================
