------------------------------ MODULE Spectral ------------------------------
(* Fourier coefficients of real and complex fields, as exact sums: products  *)
(* are convolutions, derivatives are multiplications, no transform is used.  *)
EXTENDS Arr

\* --- complex numbers and arrays [s, re, im] ---------------------------------
CZero == <<0, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<FMul(x[1], y[1]) - FMul(x[2], y[2]), FMul(x[1], y[2]) + FMul(x[2], y[1])>>
CScale(x, c) == <<FMul(x[1], c), FMul(x[2], c)>>
CConj(x) == <<x[1], -x[2]>>
TimesI(x) == <<-x[2], x[1]>>
CDivR(x, c) == <<FDiv(x[1], c), FDiv(x[2], c)>>
CSum(q) == FoldLeft(CAdd, CZero, q)
CMk(s, F(_)) == LET v == TLCEval([k \in 1..Prod(s) |-> F(Unrav(k - 1, s))])
                IN  [s |-> s, re |-> TLCEval([k \in 1..Len(v) |-> v[k][1]]), im |-> TLCEval([k \in 1..Len(v) |-> v[k][2]])]
CAt(a, i) == LET k == Rav(i, a.s) + 1 IN <<a.re[k], a.im[k]>>
CNear(a, b, tol) == /\ a.s = b.s
  /\ \A k \in 1..Len(a.re) : Abs(a.re[k] - b.re[k]) <= tol /\ Abs(a.im[k] - b.im[k]) <= tol

\* --- transforms' index sets --------------------------------------------------
HalfLen(m) == m \div 2 + 1
FreqOf(n, p) == IF 2 * p < n THEN p ELSE p - n
\* full spectrum of the real field an n x m inverse transform makes of the half
\* spectrum: the self-conjugate columns only contribute their Hermitian part
Full(A, n, m) ==
  CMk(<<n, m>>, LAMBDA i :
    LET p == i[1]  q == i[2]  pm == (n - p) % n IN
    IF q = 0 \/ 2 * q = m
    THEN LET x == CAt(A, <<p, q>>)  y == CConj(CAt(A, <<pm, q>>)) IN <<(x[1] + y[1]) \div 2, (x[2] + y[2]) \div 2>>
    ELSE IF 2 * q < m THEN CAt(A, <<p, q>>) ELSE CConj(CAt(A, <<pm, m - q>>)))
\* half spectrum of the pointwise product of two real fields given by full spectra
Product(F, H) ==
  LET n == F.s[1]  m == F.s[2]  N == n * m IN
  CMk(<<n, HalfLen(m)>>, LAMBDA i :
    LET t == CSum([k \in 1..N |-> LET a == Unrav(k - 1, F.s) IN
               CMul(CAt(F, a), CAt(H, <<(i[1] - a[1]) % n, (i[2] - a[2]) % m>>))])
    IN  <<t[1] \div N, t[2] \div N>>)

\* --- wave numbers: ku[d] is the angular wave number of the first mode ----------
Kx(ku, n, i) == FreqOf(n, i[1]) * ku[1]
Ky(ku, i) == i[2] * ku[2]
K2(ku, n, i) == FSq(Kx(ku, n, i)) + FSq(Ky(ku, i))
Dx(A, ku) == CMk(A.s, LAMBDA i : TimesI(CScale(CAt(A, i), Kx(ku, A.s[1], i))))
Dy(A, ku) == CMk(A.s, LAMBDA i : TimesI(CScale(CAt(A, i), Ky(ku, i))))
CMinus(A, B) == CMk(A.s, LAMBDA i : CSub(CAt(A, i), CAt(B, i)))
CPlus(A, B)  == CMk(A.s, LAMBDA i : CAdd(CAt(A, i), CAt(B, i)))
CurlHat(u, v, ku) == CMinus(Dx(v, ku), Dy(u, ku))
\* velocity from vorticity: stream function, no mean flow
VelHat(w, ku, c) ==
  CMk(w.s, LAMBDA i : LET k2 == K2(ku, w.s[1], i) IN
    IF k2 = 0 THEN CZero
    ELSE LET psi == CDivR(CAt(w, i), k2) IN
         IF c = 1 THEN TimesI(CScale(psi, Ky(ku, i))) ELSE TimesI(CScale(psi, -Kx(ku, w.s[1], i))))

\* --- filters -----------------------------------------------------------------
BrickKeep(n, m, i) ==
  LET X == (2 * n) \div 3  f == FreqOf(n, i[1])
  IN  /\ i[2] < (2 * HalfLen(m)) \div 3
      /\ (f >= 0 /\ i[1] < X \div 2) \/ (i[1] >= n - ((X + 1) \div 2))
Masked(A, keep(_)) == CMk(A.s, LAMBDA i : IF keep(i) THEN CAt(A, i) ELSE CZero)
\* exp(-y), y >= 0
RECURSIVE Taylor(_, _, _)
Taylor(f, k, t) == IF k > 9 THEN 0 ELSE t + Taylor(f, k + 1, -(FMul(t, f) \div k))
RECURSIVE PowE(_, _)
PowE(x, k) == IF k = 0 THEN x ELSE PowE(FMul(x, 96437), k - 1)
FExpNeg(y) == IF y > 14 * ONE THEN 0 ELSE PowE(Taylor(y % ONE, 1, ONE), y \div ONE)
RECURSIVE FPow(_, _)
FPow(x, k) == IF k = 0 THEN ONE ELSE FMul(x, FPow(x, k - 1))

\* --- one-dimensional signals are 1 x m arrays --------------------------------
Row(A) == [s |-> <<1, A.s[1]>>, re |-> A.re, im |-> A.im]
Cell(A, k) == IF k + 1 > Len(A.re) THEN CZero ELSE <<A.re[k + 1], A.im[k + 1]>>
\* 3/2 rule on a signal of N (even) points with N/2 + 1 modes
PadHalf(A, L) == CMk(<<1, HalfLen(L)>>, LAMBDA i : LET x == Cell(A, i[2]) IN <<(3 * x[1]) \div 2, (3 * x[2]) \div 2>>)
CutHalf(A, k) == CMk(<<1, k>>, LAMBDA i : LET x == CAt(A, i) IN <<(2 * x[1]) \div 3, (2 * x[2]) \div 3>>)
Product32(A, B) ==
  LET k == Len(A.re)  L == 3 * (k - 1)
  IN  CutHalf(Product(Full(PadHalf(A, L), 1, L), Full(PadHalf(B, L), 1, L)), k)
ProductPlain(A, B) == LET m == 2 * (Len(A.re) - 1) IN Product(Full(Row(A), 1, m), Full(Row(B), 1, m))
\* alias-free product: only modes that sum to the target contribute
HatAt(A, k) == IF k >= 0 THEN Cell(A, k) ELSE CConj(Cell(A, -k))
ProductExact(A, B) ==
  LET k == Len(A.re)  N == 2 * (k - 1) IN
  CMk(<<1, k>>, LAMBDA i : LET j == i[2]
     t == CSum([a \in 1..(2 * k - 1) |-> LET f == a - k IN
            IF Abs(j - f) > k - 1 THEN CZero ELSE CMul(HatAt(A, f), HatAt(B, j - f))])
     IN <<t[1] \div N, t[2] \div N>>)

\* --- complex one-dimensional signals, even length n ---------------------------
Pad2(A) == LET n == Len(A.re) IN
  CMk(<<2 * n>>, LAMBDA i : LET f == FreqOf(2 * n, i[1]) IN
     IF f >= -(n \div 2) /\ f < n \div 2 THEN CScale(CAt(A, <<f % n>>), 2 * ONE) ELSE CZero)
Cut2(A) == LET n == Len(A.re) \div 2 IN
  CMk(<<n>>, LAMBDA i : LET x == CAt(A, <<FreqOf(n, i[1]) % (2 * n)>>) IN <<x[1] \div 2, x[2] \div 2>>)
ConvC(A, B) == LET n == Len(A.re) IN
  CMk(<<n>>, LAMBDA i : LET t == CSum([a \in 1..n |-> CMul(CAt(A, <<a - 1>>), CAt(B, <<(i[1] - a + 1) % n>>))]) IN <<t[1] \div n, t[2] \div n>>)
ConjHat(A) == LET n == Len(A.re) IN CMk(<<n>>, LAMBDA i : CConj(CAt(A, <<(n - i[1]) % n>>)))
Cubic(A) == ConvC(ConvC(A, A), ConjHat(A))
=============================================================================
