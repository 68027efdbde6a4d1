-------------------------------- MODULE Trig --------------------------------
(* Sine and cosine in fixed point, and the discrete Fourier transform of a   *)
(* recorded field (one axis at a time).                                      *)
EXTENDS Spectral

TWOPI == 1647099
PI1   == 823550
HPI   == 411775
RECURSIVE SinT(_, _, _)
\* Taylor series of the sine on [-pi/2, pi/2]
SinT(x2, k, t) == IF k > 13 THEN 0 ELSE t + SinT(x2, k + 2, -(FMul(t, x2) \div ((k + 1) * (k + 2))))
FSin(x) ==
  LET r0 == x % TWOPI
      r1 == IF r0 > PI1 THEN r0 - TWOPI ELSE r0
      r  == IF r1 > HPI THEN PI1 - r1 ELSE IF r1 < -HPI THEN -PI1 - r1 ELSE r1
  IN  SinT(FMul(r, r), 1, r)
FCos(x) == FSin(x + HPI)
CExp(x) == <<FCos(x), FSin(x)>>

\* transform along one axis: factor exp(-2 pi i k x / n)
Twiddle(n) == TLCEval([j \in 1..n |-> CExp(-((TWOPI * (j - 1)) \div n))])
DftAxis(A, ax) ==
  LET n == A.s[ax]  tw == Twiddle(n) IN
  CMk(A.s, LAMBDA i : CSum([x \in 1..n |-> CMul(CAt(A, [i EXCEPT ![ax] = x - 1]), tw[((i[ax] * (x - 1)) % n) + 1])]))
Complex(a) == [s |-> a.s, re |-> a.v, im |-> TLCEval([k \in 1..Len(a.v) |-> 0])]
RECURSIVE DftAll(_, _)
DftAll(A, ax) == IF ax = 0 THEN A ELSE DftAll(DftAxis(A, ax), ax - 1)
\* full transform of a real array
Dft(a) == DftAll(Complex(a), Len(a.s))
\* half spectrum of a two-dimensional full spectrum
HalfOf(F) == CMk(<<F.s[1], HalfLen(F.s[2])>>, LAMBDA i : CAt(F, i))
\* half spectrum after a round trip through a real n x m field
Real2(A, n, m) == LET F == Full(A, n, m) IN CMk(A.s, LAMBDA i : CAt(F, i))
=============================================================================
