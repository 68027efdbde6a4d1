------------------------------ MODULE TraceC09 ------------------------------
(* Functions of sums of one-dimensional operators.  A recorded result of     *)
(* applying a function of the operator is judged by the polynomial relation  *)
(* that characterises it, never by repeating the diagonalisation.            *)
EXTENDS LinOp, TraceData
VARIABLES s, l, st

Start(sess) == [none |-> 0]
Near2(a, b, tol) == a.s = b.s /\ \A k \in 1..Len(a.v) : Abs(a.v[k] - b.v[k]) <= tol
Comb(x, a, y, b) == Mk(x.s, LAMBDA i : FMul(a, At(x, i)) + FMul(b, At(y, i)))

\* mean over every axis whose operator annihilates constants: the null space of a Laplacian
NullPart(b) == Const(b.s, SumS(b.v) \div Len(b.v))

ApplyBad(ev) ==
  IF ev.out.e # "" THEN {"raised-" \o ev.out.e}
  ELSE IF ev.out.s # ev.b.s THEN {"size"}
  ELSE IF ev.out.ty # ev.ty THEN {"dtype"}
  ELSE IF ~ev.out.ok THEN {"not-finite"}
  ELSE LET A(x) == SumApply(ev.ops, x)
           b == Arr2(ev.b)  o == Arr2(ev.out) IN
  CASE ev.fn = "id"    -> IF Near2(o, A(b), ev.tol) THEN {} ELSE {"operator-action"}
    [] ev.fn = "affine" -> IF Near2(o, Comb(b, ev.c0, A(b), ev.c1), ev.tol) THEN {} ELSE {"operator-function"}
    [] ev.fn = "square" -> IF Near2(o, A(A(b)), ev.tol) THEN {} ELSE {"operator-function"}
    [] ev.fn = "resolvent" -> IF Near2(Comb(o, ONE, A(o), -ev.c1), b, ev.tol) THEN {} ELSE {"operator-function"}
    [] ev.fn = "inverse" -> IF Near2(A(o), b, ev.tol) THEN {} ELSE {"inverse-residual"}
    [] ev.fn = "pinv" ->   \* null space of the summed operator: constants
         (IF Near2(A(o), Sub(b, NullPart(b)), ev.tol) THEN {} ELSE {"pseudoinverse-residual"})
         \cup (IF Abs(SumS(o.v)) <= ev.tol * Len(o.v) THEN {} ELSE {"null-space-component"})
    [] ev.fn = "zero" -> IF \A k \in 1..Len(o.v) : Abs(o.v[k]) <= ev.tol THEN {} ELSE {"discarded-eigenvalue"}

\* 1-D second-difference matrices against the stencil of the specification
Line1(ev, v) == [s |-> <<Len(v)>>, v |-> v, o |-> <<ev.o>>,
                 g |-> [n |-> <<ev.n>>, h |-> <<ev.h>>, r |-> <<ev.r>>, lo |-> <<0>>, hi |-> <<ev.n * ev.h>>],
                 bc |-> [t |-> <<ev.t>>, b |-> <<<<0, 0>>>>]]
\* the interior field v, extended by its zero walls, differentiated, and cut back
Column(ev, m, j) ==
  LET inner == [k \in 1..m |-> IF k = j THEN ONE ELSE 0]
      wall == ev.t[1] = "D" /\ ev.o % 4 = 0
      v == IF ~wall THEN inner ELSE IF ev.o = 4 THEN inner \o <<0>> ELSE <<0>> \o inner
      L == Second(Line1(ev, v), 1).v
  IN  IF ~wall THEN L ELSE IF ev.o = 4 THEN SubSeq(L, 1, m) ELSE SubSeq(L, 2, m + 1)
LapBad(ev) ==
  LET edge == ev.o % 4 = 0  m == IF edge /\ ev.t[1] = "D" THEN ev.n - 1 ELSE ev.n IN
  IF edge /\ "N" \in {ev.t[1], ev.t[2]} THEN RaisedBad(ev.e, {"NotImplementedError"})
  ELSE IF ev.e # "" THEN {"raised-" \o ev.e}
  ELSE IF Len(ev.m) # m THEN {"size"}
  ELSE IF \E j \in 1..m : LET c == Column(ev, m, j) IN \E i \in 1..m : ev.m[i][j] # c[i] THEN {"matrix"} ELSE {}

FStep(st0, ev) ==
  [st |-> st0, bad |->
    CASE ev.op = "apply" -> ApplyBad(ev)
      [] ev.op = "lapmat" -> LapBad(ev)
      [] ev.op = "refuse" -> RaisedBad(ev.out.e, {ev.want}) ]

INSTANCE TraceBase WITH Start <- Start, Step <- FStep
=============================================================================
