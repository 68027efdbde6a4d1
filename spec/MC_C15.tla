------------------------------- MODULE MC_C15 -------------------------------
(* Every small array / table: cutting and joining are inverse, slices of     *)
(* slices compose, tabulated interpolation hits the nodes and stays between  *)
(* its neighbours, extrapolation is affine.                                  *)
EXTENDS ArrUtil
CONSTANTS MaxN, YV
VARIABLES sh, ax, y, gap, stage
Shapes == UNION { [1..d -> 1..2] : d \in 1..3 } \cup {<<MaxN>>, <<MaxN, 2>>, <<2, MaxN>>}
Ys == {-1, 0, 2}
Init == /\ stage = 0 /\ sh \in Shapes /\ ax \in 1..Len(sh)
        /\ y \in (IF sh = <<MaxN>> THEN [1..MaxN -> Ys] ELSE {<<>>})
        /\ gap \in (IF sh = <<MaxN>> THEN [1..(MaxN - 1) -> {1, 2}] ELSE {<<>>})
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<sh, ax, y, gap>>
Spec == Init /\ [][Next]_<<sh, ax, y, gap, stage>>
A == Mk(sh, LAMBDA i : 1 + Rav(i, sh))
n == sh[ax]
FrontPart(k) == Take(A, ax, SliceSeq(n, <<0>>, <<k>>, << >>))
RearPart(k) == Take(A, ax, SliceSeq(n, <<k>>, << >>, << >>))
JoinInv == stage = 1 => \A k \in (-n)..n : Concat(FrontPart(k), RearPart(k), ax) = A
PartsInv == stage = 1 => ConcatAll([j \in 1..n |-> Take(A, ax, <<j - 1>>)], ax, n) = A
Mirrored == stage = 1 => LET r == SliceSeq(n, << >>, << >>, <<-1>>) IN Take(Take(A, ax, r), ax, r) = A
SliceRange == stage = 1 => \A a \in ({<< >>} \cup {<<k>> : k \in (-n-1)..(n+1)}) : \A b \in ({<< >>} \cup {<<k>> : k \in (-n-1)..(n+1)}) : \A c \in {1, 2, -1, -2} :
   LET q == SliceSeq(n, a, b, <<c>>) IN
   /\ \A k \in 1..Len(q) : q[k] \in 0..(n-1) /\ (k > 1 => q[k] = q[k-1] + c)
   /\ Len(q) <= n
NegIndex == stage = 1 => \A j \in 0..(n-1) : PickAt(A, ax, j) = PickAt(A, ax, j - n)
\* interpolation tables
RECURSIVE Node(_)
Node(k) == IF k = 1 THEN -ONE ELSE Node(k - 1) + gap[k-1] * HALF
X == [k \in 1..MaxN |-> Node(k)]
Y == [k \in 1..MaxN |-> y[k] * ONE]
F(q, mode) == Interp1(X, Y, q, mode, 77)
Modes == {"extrapolate", "constant_extrapolate", "fill"}
AtNodes == (stage = 1 /\ y # <<>>) => \A m \in Modes : \A k \in 1..MaxN : Abs(F(X[k], m) - Y[k]) <= 2
Between == (stage = 1 /\ y # <<>>) => \A m \in Modes : \A k \in 1..(MaxN-1) : LET q == (X[k] + X[k+1]) \div 2 IN Abs(2 * F(q, m) - Y[k] - Y[k+1]) <= 4
Outside == (stage = 1 /\ y # <<>>) =>
   /\ \A q \in {X[1] - HALF, X[MaxN] + ONE} : F(q, "fill") = 77
   /\ F(X[1] - ONE, "constant_extrapolate") = Y[1] /\ Abs(F(X[MaxN] + ONE, "constant_extrapolate") - Y[MaxN]) <= 2
   /\ Abs((F(X[MaxN] + ONE, "extrapolate") - Y[MaxN]) - 2 * (F(X[MaxN] + HALF, "extrapolate") - Y[MaxN])) <= 4
Permuted == (stage = 1 /\ y # <<>>) =>
   LET p == [k \in 1..MaxN |-> MaxN + 1 - k]
       xs == [k \in 1..MaxN |-> X[p[k]]]  ys == [s |-> <<MaxN>>, v |-> [k \in 1..MaxN |-> Y[p[k]]]]
       q == [s |-> <<2>>, v |-> <<X[1] + 65536, X[MaxN] - 65536>>]
   IN  Table(xs, ys, 1, q, "fill", 0) = Table(X, [s |-> <<MaxN>>, v |-> Y], 1, q, "fill", 0)
=============================================================================
