------------------------------- MODULE Check -------------------------------
(* Clauses an observed result violates, given the expected field.            *)
EXTENDS Boundary, FiniteSets

\* data only
DataBad(out, e, tol) ==
  IF out.e # "" THEN {"raised-" \o out.e}
  ELSE IF out.s # e.s THEN {"size"}
  ELSE IF ~out.ok THEN {"not-finite"}
  ELSE IF ~NearA(e, out, tol) THEN {"values"} ELSE {}

\* data, location and grid
FieldBad(out, e, o, g, tol) ==
  IF out.e # "" THEN {"raised-" \o out.e}
  ELSE DataBad(out, e, tol)
       \cup (IF out.o # o THEN {"location"} ELSE {})
       \cup (IF out.g # g THEN {"grid"} ELSE {})

\* the same with the boundary condition of a variable
VarBad(out, e, o, g, bc, tol) ==
  IF out.e # "" THEN {"raised-" \o out.e}
  ELSE FieldBad(out, e, o, g, tol)
       \cup (IF out.bc # bc THEN {"boundary-condition"} ELSE {})

RaisedBad(e, names) == IF e \in names THEN {} ELSE {"not-refused"}
=============================================================================
