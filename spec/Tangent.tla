------------------------------- MODULE Tangent -------------------------------
(* Derivatives of the operations.  Every operation here is affine, quadratic,  *)
(* or characterised by a relation, so that its derivative is determined        *)
(* without limits: an affine operation acts on the perturbation with           *)
(* homogeneous boundary values; a quadratic one by polarisation,               *)
(*   2 DF(x) t = F(x + t) - F(x - t)   (exact for degree two).                 *)
(* Reverse mode is characterised by the adjoint identity.                      *)
EXTENDS Solver, Diffuse

Hom(f) == [f EXCEPT !.bc.b = [d \in 1..Len(@) |-> <<0, 0>>]]
WithV(f, v) == [f EXCEPT !.v = v]
Perturb(f, t, sg) == [f EXCEPT !.v = TLCEval([k \in 1..Len(@) |-> f.v[k] + sg * t[k]])]

\* the operations: from a sequence of fields to a sequence of value sequences
Vals(q) == TLCEval([i \in 1..Len(q) |-> q[i].v])
OpOf(f, p, x) ==
  CASE f = "fwd" -> <<Fwd(x[1], p.ax).v>>
    [] f = "bwd" -> <<Bwd(x[1], p.ax).v>>
    [] f = "ctr" -> <<Ctr(x[1], p.ax).v>>
    [] f = "lap" -> <<Laplace(x[1]).v>>
    [] f = "div" -> <<Diverge(x).v>>
    [] f = "cdiv" -> <<CDiverge(x).v>>
    [] f = "curl2" -> <<Curl2(x).v>>
    [] f = "interp" -> <<Linear(x[1], p.to).v>>
    [] f = "rate" -> <<Rate(x[1], p.c).v>>
    [] f = "corate" -> <<CoRate(x[1], p.c).v>>
    [] f = "advlinear" -> <<FluxForm("linear", x[1], Tail(x), p.c).v>>
    [] f = "advupwind" -> <<FluxForm("upwind", x[1], Tail(x), p.c).v>>
    [] f = "convect" -> Vals(Convect(x))
    [] f = "colinear" -> <<CoFluxForm(x[1], Tail(x)).v>>
    [] f = "coconvect" -> Vals(CoConvect(x))
Linears == {"fwd", "bwd", "ctr", "lap", "div", "cdiv", "curl2", "interp", "rate", "corate"}
Quadratics == {"advlinear", "advupwind", "convect", "colinear", "coconvect"}

HalfDiff(a, b) == TLCEval([i \in 1..Len(a) |-> TLCEval([k \in 1..Len(a[i]) |-> (a[i][k] - b[i][k]) \div 2])])
Moved(x, t, sg) == TLCEval([i \in 1..Len(x) |-> Perturb(x[i], t[i], sg)])
Derivative(f, p, x, t) ==
  IF f \in Linears THEN OpOf(f, p, TLCEval([i \in 1..Len(x) |-> WithV(Hom(x[i]), t[i])]))
  ELSE HalfDiff(OpOf(f, p, Moved(x, t, 1)), OpOf(f, p, Moved(x, t, -1)))

\* one explicit Euler step of the first Len(rates) fields
Axpy(x, c, v) == [x EXCEPT !.v = TLCEval([k \in 1..Len(@) |-> x.v[k] + FMul(c, v[k])])]
EulerOf(f, p, x, dt) == LET q == OpOf(f, p, x) IN TLCEval([i \in 1..Len(x) |-> IF i <= Len(q) THEN Axpy(x[i], dt, q[i]) ELSE x[i]])
EulerTangent(f, p, x, t, dt) == LET q == Derivative(f, p, x, t) IN
  TLCEval([i \in 1..Len(x) |-> IF i <= Len(q) THEN TLCEval([k \in 1..Len(t[i]) |-> t[i][k] + FMul(dt, q[i][k])]) ELSE t[i]])

\* the adjoint identity
Dot(a, b) == SumS(TLCEval([i \in 1..Len(a) |-> SumS(TLCEval([k \in 1..Len(a[i]) |-> FMul(a[i][k], b[i][k])]))]))
Count(a) == SumS([i \in 1..Len(a) |-> Len(a[i])])
=============================================================================
