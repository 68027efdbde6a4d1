------------------------------ MODULE MC_C14 ------------------------------
(* A vorticity spectrum is built one mode at a time.  After every step: the   *)
(* recovered velocity is free of divergence and its curl is the vorticity,    *)
(* products of real fields are spectra of real fields, the de-aliased         *)
(* nonlinear term conserves energy and enstrophy, the masks keep every mode   *)
(* they should and no alias, padded products equal the alias-free ones.       *)
EXTENDS Spectral, FiniteSets
CONSTANTS Rows, Cols, MaxModes
VARIABLES w, modes
KU == <<ONE, HALF>>
S == <<Rows, HalfLen(Cols)>>
Zero == [s |-> S, re |-> TLCEval([k \in 1..Prod(S) |-> 0]), im |-> TLCEval([k \in 1..Prod(S) |-> 0])]
\* modes whose mirror image is also kept
Kept == TLCEval({i \in {Unrav(k - 1, S) : k \in 1..Prod(S)} : i # <<0, 0>> /\ BrickKeep(Rows, Cols, i) /\ BrickKeep(Rows, Cols, <<(Rows - i[1]) % Rows, i[2]>>)})
Amps == {<<ONE, 0>>, <<0, ONE>>, <<-HALF, HALF>>}
\* a real field: modes of the first column come with their mirror image
Put(A, i, z) == LET B == CMk(S, LAMBDA j : IF j = i THEN z ELSE CAt(A, j)) IN
  IF i[2] > 0 THEN B ELSE CMk(S, LAMBDA j : IF j = <<(Rows - i[1]) % Rows, 0>> THEN CConj(z) ELSE CAt(B, j))
Init == w = Zero /\ modes = {}
Add1(i, z) == i \notin modes /\ <<(Rows - i[1]) % Rows, i[2]>> \notin {m \in modes : m[2] = 0} /\ w' = Put(w, i, z) /\ modes' = modes \cup {i}
Next == Cardinality(modes) < MaxModes /\ \E i \in Kept, z \in Amps : Add1(i, z)
Spec == Init /\ [][Next]_<<w, modes>>
TOL == 256
Tiny(A, tol) == \A k \in 1..Len(A.re) : Abs(A.re[k]) <= tol /\ Abs(A.im[k]) <= tol
U == VelHat(w, KU, 1)
V == VelHat(w, KU, 2)
DivFree == Tiny(CPlus(Dx(U, KU), Dy(V, KU)), TOL)
CurlBack == CNear(CurlHat(U, V, KU), w, TOL) /\ CAt(U, <<0, 0>>) = CZero /\ CAt(V, <<0, 0>>) = CZero
F(A) == Full(A, Rows, Cols)
Hermitian(A) == \A k \in 1..Len(A.re) : LET i == Unrav(k - 1, A.s)  x == CAt(A, i)  y == CConj(CAt(A, <<(Rows - i[1]) % Rows, (Cols - i[2]) % Cols>>)) IN
   Abs(x[1] - y[1]) <= 8 /\ Abs(x[2] - y[2]) <= 8
Real == Hermitian(F(w)) /\ Hermitian(F(U)) /\ Hermitian(F(Product(F(w), F(U)))) /\ CNear(Product(F(w), F(U)), Product(F(U), F(w)), 8)
Adv == LET A == Product(F(Dx(w, KU)), F(U))  B == Product(F(Dy(w, KU)), F(V)) IN
  CMk(S, LAMBDA i : IF BrickKeep(Rows, Cols, i) THEN CAdd(CAt(A, i), CAt(B, i)) ELSE CZero)
Inner(A, B) == LET a == F(A)  b == F(B) IN SumS([k \in 1..Len(a.re) |-> FMul(a.re[k], b.re[k]) + FMul(a.im[k], b.im[k])])
Psi == CMk(S, LAMBDA i : LET k2 == K2(KU, Rows, i) IN IF k2 = 0 THEN CZero ELSE CDivR(CAt(w, i), k2))
Conserve == LET a == Adv IN Abs(Inner(w, a)) <= TOL * 4 /\ Abs(Inner(Psi, a)) <= TOL * 16 /\ Abs(CAt(a, <<0, 0>>)[1]) <= TOL
\* no triple of kept modes whose sum is a kept mode only by aliasing
AllKept == {<<FreqOf(Rows, i[1]), i[2]>> : i \in {Unrav(k - 1, S) : k \in 1..Prod(S)} }
Cut1 == {FreqOf(Rows, p) : p \in {q \in 0..(Rows - 1) : BrickKeep(Rows, Cols, <<q, 0>>)}}
NoAlias == modes = {} => \A n \in 3..9 : LET keep == {FreqOf(n, q) : q \in {p \in 0..(n - 1) : BrickKeep(n, n, <<p, 0>>)}}
                                                both == {f \in keep : -f \in keep} IN
   \A a \in both, b \in both, c \in both : (a + b - c) % n = 0 => a + b = c
Constant == LET one == Put(Zero, <<0, 0>>, <<ONE * Rows * Cols, 0>>) IN CNear(Product(F(w), F(one)), CMk(S, LAMBDA i : CAt(F(w), i)), 8)
\* the first row of the spectrum as a one-dimensional signal
Sig(k) == [s |-> <<k>>, re |-> TLCEval([j \in 1..k |-> IF j = k THEN 0 ELSE (w.re[j] + (IF j = 2 THEN HALF ELSE 0))]),
           im |-> TLCEval([j \in 1..k |-> IF j \in {1, k} THEN 0 ELSE w.im[j]])]
Rule32 == \A k \in 2..HalfLen(Cols) : LET a == Sig(k)  L == 3 * (k - 1) IN
   /\ CNear(Product32(a, a), ProductExact(a, a), 16)
   /\ CNear(CutHalf(PadHalf(a, L), k), Row(a), 4)
   \* the convective term of a one-dimensional flow does no work
   /\ LET sq == Product32(a, a)  d == CMk(sq.s, LAMBDA i : TimesI(CScale(CAt(sq, i), i[2] * KU[1])))
          x == Full(Row(a), 1, 2 * (k - 1))  y == Full(d, 1, 2 * (k - 1)) IN
      Abs(SumS([j \in 1..Len(x.re) |-> FMul(x.re[j], y.re[j]) + FMul(x.im[j], y.im[j])])) <= TOL
Complexes == LET a == [s |-> <<4>>, re |-> TLCEval([j \in 1..4 |-> IF j = 3 THEN 0 ELSE w.re[j]]), im |-> TLCEval([j \in 1..4 |-> IF j = 3 THEN 0 ELSE w.im[j]])] IN
   /\ CNear(Cut2(Pad2(a)), a, 4)
   /\ LET q == Cut2(Cubic(Pad2(a))) IN       \* mass: the cubic term turns the phase only
      Abs(SumS([j \in 1..4 |-> FMul(a.re[j], q.im[j]) - FMul(a.im[j], q.re[j])])) <= TOL
Laws == DivFree /\ CurlBack /\ Real /\ Constant
=============================================================================
