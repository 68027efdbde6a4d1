-------------------------------- MODULE Fix --------------------------------
(* Fixed-point reals: the integer k stands for k / 2^18.  TLC integers are   *)
(* 32 bit and overflow is an evaluation error, never a silent wrap, so every *)
(* product is split into 9-bit limbs.  Linear operations on values that are  *)
(* dyadic with at most 18 fractional bits are exact.                         *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

ONE  == 262144          \* 2^18
HALF == 131072
LIMB == 512             \* 2^9

Abs(x)    == IF x < 0 THEN -x ELSE x
Sgn(x)    == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Max2(a,b) == IF a < b THEN b ELSE a
Min2(a,b) == IF a < b THEN a ELSE b

\* floor(a*b / 2^18), for |a|,|b| < 2^29 and |result| < 2^31
FMul(a, b) ==
  LET ah == a \div LIMB  al == a % LIMB
      bh == b \div LIMB  bl == b % LIMB
  IN  ah * bh + (ah * bl + al * bh + ((al * bl) \div LIMB)) \div LIMB

RECURSIVE DivBits(_, _, _, _)
DivBits(r, b, k, q) ==
  IF k = 0 THEN q
  ELSE IF 2 * r >= b THEN DivBits(2 * r - b, b, k - 1, 2 * q + 1)
                     ELSE DivBits(2 * r, b, k - 1, 2 * q)

\* truncated a/b in fixed point, b # 0, |b| < 2^30
FDiv(a, b) ==
  LET aa == Abs(a)  bb == Abs(b)
      hi == aa \div bb
      q  == DivBits(aa % bb, bb, 18, 0)
  IN  Sgn(a) * Sgn(b) * (hi * ONE + q)

FSq(a) == FMul(a, a)

\* integer square root in fixed point: floor(sqrt(a)) by Newton / bisection
RECURSIVE SqrtBis(_, _, _)
SqrtBis(a, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN  IF FMul(m, m) <= a THEN SqrtBis(a, m, hi) ELSE SqrtBis(a, lo, m)
FSqrt(a) == IF a <= 0 THEN 0 ELSE SqrtBis(a, 0, Min2(Max2(a, ONE) + 1, 90 * ONE))

FInt(n)    == n * ONE
FRat(p, q) == FDiv(FInt(p), FInt(q))

Close(a, b, tol) == Abs(a - b) <= tol

\* sums and extrema over sequences
SumS(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
MaxS(q) == FoldLeft(LAMBDA x, y : Max2(x, y), q[1], q)
MinS(q) == FoldLeft(LAMBDA x, y : Min2(x, y), q[1], q)
=============================================================================
