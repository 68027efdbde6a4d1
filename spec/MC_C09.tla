------------------------------- MODULE MC_C09 -------------------------------
(* The relations used to judge functions of an operator determine their      *)
(* result: the resolvent, the pseudoinverse (up to the stated null space)    *)
(* and the inverse have no second solution, for every pair of 1-D Laplacians *)
(* and every small integer vector; the 1-D matrices are symmetric with       *)
(* non-positive quadratic form.                                              *)
EXTENDS LinOp
CONSTANTS N1, N2, Vals
V101 == {-1, 0, 1}
V01 == {0, 1}
VARIABLES ops, kinds, x, stage

\* second-difference matrices with unit step
Mat(n, kind) == [i \in 1..n |-> [j \in 1..n |->
   LET link(a, b) == IF a = b THEN ONE ELSE 0
       lo == IF i > 1 THEN link(i - 1, j)
             ELSE IF kind = "per" THEN link(n, j) ELSE IF kind = "neu" THEN link(1, j)
             ELSE IF kind = "dir" THEN -link(1, j) ELSE 0
       hi == IF i < n THEN link(i + 1, j)
             ELSE IF kind = "per" THEN link(1, j) ELSE IF kind = "neu" THEN link(n, j)
             ELSE IF kind = "dir" THEN -link(n, j) ELSE 0
   IN  lo + hi - 2 * link(i, j)]]
Kinds == {"per", "neu", "dir", "edge"}
Init == /\ kinds \in Kinds \X Kinds
        /\ ops = << Mat(N1, kinds[1]), Mat(N2, kinds[2]) >>
        /\ x \in [1..(N1 * N2) -> Vals] /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<ops, kinds, x>>
Spec == Init /\ [][Next]_<<ops, kinds, x, stage>>
X == [s |-> <<N1, N2>>, v |-> [k \in 1..(N1 * N2) |-> x[k] * ONE]]
Zero == \A k \in 1..(N1 * N2) : x[k] = 0
AX == SumApply(ops, X)
Singular == {kinds[1], kinds[2]} \subseteq {"per", "neu"}
Unique == stage = 1 =>
  /\ (\A k \in 1..(N1 * N2) : X.v[k] = FMul(HALF, AX.v[k])) => Zero
  /\ ((\A k \in 1..(N1 * N2) : AX.v[k] = 0) /\ (Singular => SumS(x) = 0)) => Zero
Symmetric == stage = 1 => \A d \in 1..2 : \A i, j \in 1..Len(ops[d]) : ops[d][i][j] = ops[d][j][i]
Negative == stage = 1 => LET q == SumS([k \in 1..(N1 * N2) |-> x[k] * AX.v[k]]) IN q <= 0 /\ (q = 0 => Singular \/ Zero)
Range0 == stage = 1 => (Singular => SumS(AX.v) = 0)
=============================================================================
