------------------------------ MODULE MC_C19 ------------------------------
(* A force is put together one term at a time, in any order.  The running sum *)
(* of the terms must not depend on the order, constant terms must add no net  *)
(* momentum and no divergence, and cutting the linear force into bands must   *)
(* lose nothing but the mean.                                                 *)
EXTENDS Forcing, FiniteSets
CONSTANTS Shape, MaxTerms
N44 == <<4, 4>>
N35 == <<3, 5>>
N322 == <<3, 2, 2>>
VARIABLES terms, acc, vel, stage

ND == Len(Shape)
GR == [n |-> Shape, lo |-> [d \in 1..ND |-> 0], hi |-> [d \in 1..ND |-> TWOPI]]
H(d) == TWOPI \div Shape[d]
Seeds == 1..2
QUART == ONE \div 4
V(s) == [c \in 1..ND |-> Loc(Mk(GR.n, LAMBDA i : (((7 * Rav(i, GR.n) + 11 * c + 5 * s) % 13) - 6) * QUART), FaceLoc(ND, c))]
Parts == {[t |-> "zero"], [t |-> "lin", c |-> -HALF],
          [t |-> "kol", a |-> ONE, k |-> 1, swap |-> FALSE, off |-> <<>>],
          [t |-> "kol", a |-> HALF, k |-> 2, swap |-> TRUE, off |-> <<>>],
          [t |-> "tg", a |-> ONE, k |-> 1], [t |-> "tg", a |-> -HALF, k |-> 2]}
Elsewhere == [t |-> "kol", a |-> ONE, k |-> 1, swap |-> FALSE, off |-> [k \in 1..ND |-> [d \in 1..ND |-> 2]]]

Init == /\ terms = <<>> /\ stage = 0
        /\ vel \in {V(s) : s \in Seeds}
        /\ acc = ForceOf([t |-> "zero"], GR, vel)
Put(e) == /\ Len(terms) < MaxTerms
          /\ terms' = Append(terms, e)
          /\ acc' = Plus(<<acc, ForceOf(e, GR, vel)>>)
          /\ stage' = 1 /\ UNCHANGED vel
Next == \E e \in Parts : Put(e)
Spec == Init /\ [][Next]_<<terms, acc, vel, stage>>

Same(f, g, tol) == \A c \in 1..Len(f) : NearA(f[c], g[c], tol) /\ f[c].o = g[c].o
Orders(q) == {p \in [1..Len(q) -> 1..Len(q)] : Cardinality({p[k] : k \in 1..Len(q)}) = Len(q)}
AnyOrder == stage = 1 => \A p \in Orders(terms) :
   Same(acc, ForceOf([t |-> "sum", p |-> [k \in 1..Len(terms) |-> terms[p[k]]]], GR, vel), 0)
Nested == stage = 1 /\ Len(terms) >= 2 =>
   Same(acc, ForceOf([t |-> "sum", p |-> <<terms[1], [t |-> "sum", p |-> Tail(terms)]>>], GR, vel), 0)
Mismatch == stage = 1 => ~Admissible([t |-> "sum", p |-> <<Elsewhere>> \o terms], GR, vel)
\* constant forces: no net push where the wave is resolved, and no divergence
Resolved(e) == \A d \in 1..2 : e.k % GR.n[d] # 0
Backward(a, d) == Map2(a, Roll(a, d, -1), LAMBDA x, y : FDiv(x - y, H(d)))
NoPush == stage = 1 => LET e == terms[Len(terms)]  f == ForceOf(e, GR, vel) IN
   e.t \in {"kol", "tg"} =>
     /\ Resolved(e) => \A c \in 1..ND : Abs(TotalA(f[c])) <= 8 * Len(f[c].v)
     \* the grid spacing differs in the two directions: only square cells are free of divergence
     /\ e.t = "kol" => LET dv(d) == Backward(f[d], d) IN \A k \in 1..Prod(GR.n) : SumS([d \in 1..ND |-> dv(d).v[k]]) = 0
     /\ (e.t = "tg" /\ GR.n[1] = GR.n[2]) => LET dv(d) == Backward(f[d], d) IN
            \A k \in 1..Prod(GR.n) : Abs(SumS([d \in 1..ND |-> dv(d).v[k]])) <= 64
\* the bands [0,1/8], [1/8,1/4], ... of the linear force add up to it, the mean aside
Bands(c) == <<[t |-> "band", lo |-> 0, hi |-> (ONE \div 4) - 999, c |-> c],
              [t |-> "band", lo |-> (ONE \div 4) - 998, hi |-> ONE, c |-> c]>>
Partition == stage = 1 /\ terms[Len(terms)].t = "lin" =>
   LET c == terms[Len(terms)].c  a == vel[1]  A == Dft(a)
       s == CPlus(Weighted(Bands(c)[1], GR, a), Weighted(Bands(c)[2], GR, a))
   IN  \A k \in 1..Len(A.re) : LET i == Unrav(k - 1, A.s) IN
         CAt(s, i) = (IF MeanMode(i) THEN CZero ELSE CScale(CAt(A, i), c))
\* the trigonometry this rests on
Angles == {k * 41177 : k \in 0..80}
TrigRight == stage = 0 => \A x \in Angles :
   /\ Abs(FSq(FSin(x)) + FSq(FCos(x)) - ONE) <= 12
   /\ Abs(FSin(x) + FSin(-x)) <= 6 /\ Abs(FSin(x) + FSin(x + PI1)) <= 6
   /\ Abs(FSin(2 * x) - 2 * FMul(FSin(x), FCos(x))) <= 16
Parseval == stage = 0 => \A c \in 1..ND : LET A == Dft(vel[c])  N == Prod(GR.n) IN
   Abs(SumS([k \in 1..N |-> (FSq(A.re[k]) + FSq(A.im[k])) \div N]) - SumS([k \in 1..N |-> FSq(vel[c].v[k])])) <= 64 * N
=============================================================================
