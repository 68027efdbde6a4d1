------------------------------ MODULE TraceC14 ------------------------------
(* Spectral operators and equations (C14).                                   *)
EXTENDS Spectral, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
CBad(out, e, tol) ==
  IF out.e # "" THEN {"raised-" \o out.e}
  ELSE IF out.s # e.s THEN {"size"} ELSE IF ~out.ok THEN {"not-finite"}
  ELSE IF ~CNear(out, e, tol) THEN {"values"} ELSE {}
Flat(A) == [s |-> <<A.s[2]>>, re |-> A.re, im |-> A.im]
As1(A, ev) == IF Len(ev.a.s) = 1 THEN Flat(A) ELSE A

\* linear operator of each equation as <<real, imaginary>> factor of mode i
Kap(ev, i) == IF ev.half THEN i[1] * ev.ku[1] ELSE FreqOf(ev.a.s[1], i[1]) * ev.ku[1]
LinOf(ev, i) ==
  CASE ev.eq = "ns" -> << -FMul(ev.nu, K2(ev.ku, ev.a.s[1], i)) - ev.drag, 0>>
    [] ev.eq = "ks" -> LET k2 == FSq(Kap(ev, i)) IN <<k2 - FSq(k2), 0>>
    [] ev.eq = "burgers" -> << -FMul(ev.nu, FSq(Kap(ev, i))), 0>>
    [] ev.eq = "nls" -> <<0, FSq(Kap(ev, i)) \div 8>>
Lin(ev) == CMk(ev.a.s, LAMBDA i : CMul(LinOf(ev, i), CAt(ev.a, i)))
\* out - step * L out = a
Back(ev) == CMk(ev.a.s, LAMBDA i : LET x == CAt(ev.out, i) IN CSub(x, CMul(CScale(LinOf(ev, i), ev.tau), x)))
SolveTol(ev) == ev.tol

D1(A, ku) == CMk(A.s, LAMBDA i : TimesI(CScale(CAt(A, i), i[Len(i)] * ku[1])))
NSExplicit(ev) ==
  LET n == ev.n[1]  m == ev.n[2]  w == ev.a
      u == VelHat(w, ev.ku, 1)  v == VelHat(w, ev.ku, 2)
      A == Product(Full(Dx(w, ev.ku), n, m), Full(u, n, m))
      B == Product(Full(Dy(w, ev.ku), n, m), Full(v, n, m))
      adv == CMk(w.s, LAMBDA i : LET x == CAdd(CAt(A, i), CAt(B, i)) IN
               IF ev.smooth /\ ~BrickKeep(n, m, i) THEN CZero ELSE <<-x[1], -x[2]>>)
      Herm(X) == LET F == Full(X, n, m) IN CMk(X.s, LAMBDA i : CAt(F, i))
      fx == CMk(w.s, LAMBDA i : CAdd(CScale(CAt(Herm(u), i), ev.fa), CAt(ev.f1, i)))
      fy == CMk(w.s, LAMBDA i : CAdd(CScale(CAt(Herm(v), i), ev.fa), CAt(ev.f2, i)))
  IN  IF ev.forced THEN CPlus(adv, CurlHat(fx, fy, ev.ku)) ELSE adv

Explicit(ev) ==
  CASE ev.eq = "ns" -> NSExplicit(ev)
    [] ev.eq = "ks" ->
         LET sq == IF ev.smooth THEN Product32(ev.a, ev.a) ELSE ProductPlain(ev.a, ev.a)
             d == D1(sq, ev.ku)
         IN  Flat(CMk(d.s, LAMBDA i : LET x == CAt(d, i) IN << -(x[1] \div 2), -(x[2] \div 2)>>))
    [] ev.eq = "burgers" ->
         LET p == Product32(ev.a, D1(ev.a, ev.ku)) IN
         Flat(CMk(p.s, LAMBDA i : CSub(IF ev.forced THEN Cell(ev.f1, i[2]) ELSE CZero, CAt(p, i))))
    [] ev.eq = "nls" ->
         LET q == IF ev.smooth THEN Cut2(Cubic(Pad2(ev.a))) ELSE Cubic(ev.a) IN
         CMk(q.s, LAMBDA i : LET x == TimesI(CAt(q, i)) IN << -(x[1] \div 2), -(x[2] \div 2)>>)

FilterBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE LET e == Mk(<<ev.n[1], HalfLen(ev.n[2])>>, LAMBDA i :
             IF ev.name = "brick" THEN (IF BrickKeep(ev.n[1], ev.n[2], i) THEN ONE ELSE 0)
             ELSE LET c == FSqrt(FSq(FreqOf(ev.n[1], i[1]) * ev.ku[1]) + FSq(i[2] * ev.ku[2]))
                      top == FMul(170394, (ev.n[2] \div 2) * ev.ku[2])          \* 0.65 of the largest
                      d == c - top
                  IN  IF d <= 0 THEN ONE ELSE FExpNeg(FMul(6186598, FSq(FSq(d)))))   \* 23.6
       IN  IF ev.out.s # e.s THEN {"size"} ELSE IF ~NearA(e, ev.out, 64) THEN {"mask"} ELSE {}

ExpSigma(ev, i) ==
  LET n == ev.n[1]  f == FreqOf(n, i[1])  g == i[2]
      eta2 == ((f * f + g * g) * ONE) \div (n * n)
  IN  FExpNeg(FMul(ev.la, FPow(eta2, ev.order)))

\* the configured step: one forward Euler step of the whole equation, then the filter if requested
ModuleStep(ev) ==
  LET L == Lin(ev)  E == NSExplicit(ev)
      a == CMk(ev.a.s, LAMBDA i : CAdd(CAt(ev.a, i), CScale(CAdd(CAt(L, i), CAt(E, i)), ev.tau)))
      H == TLCEval(Full(a, ev.n[1], ev.n[2]))
  IN  IF ev.filter THEN CMk(a.s, LAMBDA i : CScale(CAt(H, i), ExpSigma(ev, i))) ELSE a

FStep(z, ev) ==
  [st |-> z, bad |->
   CASE ev.op = "linear"   -> CBad(ev.out, Lin(ev), ev.tol)
     [] ev.op = "solve"    -> IF ev.out.e # "" THEN {"raised-" \o ev.out.e} ELSE CBad([ev.a EXCEPT !.e = "" ], Back(ev), ev.tol)
     [] ev.op = "explicit" -> CBad(ev.out, Explicit(ev), ev.tol)
     [] ev.op = "clock"    -> IF ev.got = ev.want THEN {} ELSE {"time"}
     [] ev.op = "velocity" -> CBad(ev.out, VelHat(ev.a, ev.ku, ev.c), ev.tol)
     [] ev.op = "curl"     -> CBad(ev.out, CurlHat(ev.a, ev.b, ev.ku), ev.tol)
     [] ev.op = "mask"     -> FilterBad(ev)
     [] ev.op = "expfilter" -> CBad(ev.out, CMk(ev.a.s, LAMBDA i : CScale(CAt(ev.a, i), ExpSigma(ev, i))), ev.tol)
     [] ev.op = "module" -> CBad(ev.out, ModuleStep(ev), ev.tol)
     [] ev.op = "pad32"    -> LET L == 3 * (Len(ev.a.re) - 1)  P == PadHalf(ev.a, L)  F == Full(P, 1, L) IN
                              CBad(ev.out, Flat(CMk(P.s, LAMBDA i : CAt(F, i))), ev.tol)
     [] ev.op = "cut32"    -> CBad(ev.out, Flat(CutHalf(Row(ev.a), ev.keep)), ev.tol)
     [] ev.op = "pad2"     -> CBad(ev.out, Pad2(ev.a), ev.tol)
     [] ev.op = "cut2"     -> CBad(ev.out, Cut2(ev.a), ev.tol)
     [] ev.op = "fstep"    -> CBad(ev.out, CMk(ev.a.s, LAMBDA i : CScale(CAt(ev.a, i), At(ev.m, i))), ev.tol)
     [] ev.op = "refuse"   -> IF ev.out.e = "" THEN {"not-refused"} ELSE {} ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
