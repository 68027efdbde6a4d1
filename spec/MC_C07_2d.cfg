SPECIFICATION Spec
CONSTANTS Dims = 2
 N1 = 2
 N2 = 2
 Vals <- V101
 Walls = {TRUE, FALSE}
INVARIANTS Unique GradOk WallsKept Solvable
CHECK_DEADLOCK FALSE
