------------------------------ MODULE MC_C17 ------------------------------
(* What the accuracy conditions mean: any coefficients that satisfy them,     *)
(* applied around every cell of a field, are exact on polynomials sampled at  *)
(* the declared locations, whatever the placement of stencil and target.      *)
EXTENDS Stencil, FiniteSets
CONSTANTS Size, Vals, Ords
V5 == {-ONE, -HALF, 0, HALF, ONE, ONE + HALF, -ONE - HALF, 2 * ONE, -2 * ONE}
V3 == {-ONE, -HALF, 0, HALF, ONE}
VARIABLES cf, loc, tgt, od, hh, stage
N == 8
Locs == {0, HALF, ONE}
Init == /\ cf \in [1..Size -> Vals] /\ loc \in Locs /\ tgt \in Locs \cup {ONE + HALF}
        /\ od \in Ords /\ hh \in {HALF, ONE} /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<cf, loc, tgt, od, hh>>
Spec == Init /\ [][Next]_<<cf, loc, tgt, od, hh, stage>>

St == StencilOf(<<Size>>, Frac(<<loc>>, <<tgt>>), hh)
Ok(acc, fv) == Satisfies(cf, Rows(St, fv, <<od>>, acc, hh))
Coef == [s |-> <<N, Size>>, v |-> [k \in 1..(N * Size) |-> cf[((k - 1) % Size) + 1]]]
\* samples of x^m at the input location (m <= 1: point values and cell means agree)
Sample(m) == [s |-> <<N>>, v |-> [k \in 1..N |-> PowF(FMul(FInt(k - 1) + loc, hh), m)]]
Out(m) == Weighted(Sample(m), Coef, <<Size>>, <<loc>>, <<tgt>>)
Target(k) == FMul(FInt(k - 1) + tgt, hh)
Inner == 4..(N - 4)
Exact ==
  stage = 1 => \A fv \in BOOLEAN :
    /\ Ok(1, fv) => \A k \in 1..N : od = 0 => Abs(Out(0).v[k] - ONE) <= 32
    /\ Ok(1, fv) => \A k \in 1..N : od = 1 => Abs(Out(0).v[k]) <= 32
    /\ (od = 0 /\ Ok(2, fv)) => \A k \in Inner : Abs(Out(1).v[k] - Target(k)) <= 64
    /\ (od = 1 /\ Ok(1, fv)) => \A k \in Inner : Abs(Out(1).v[k] - ONE) <= 64
\* the conditions of higher order imply those of lower order
Nested == stage = 1 => \A fv \in BOOLEAN : \A a \in 1..2 : Ok(a + 1, fv) => Ok(a, fv)
\* as many independent conditions as the order asks for, until none is left
Counted == stage = 1 => \A acc \in 1..(Size - od) : RankOf(Rows(St, FALSE, <<od>>, acc, hh)) = acc + od
Sometimes == ~(stage = 1 /\ od = 0 /\ Size > 2 /\ Ok(2, TRUE))   \* used to check the model is not vacuous
=============================================================================
