SPECIFICATION Spec
CONSTANTS Dims = 2
 N1 = 3
 N2 = 2
 Vals <- V01
 Walls = {TRUE, FALSE}
INVARIANTS Unique GradOk WallsKept Solvable
CHECK_DEADLOCK FALSE
