SPECIFICATION Spec
CONSTANTS Dims = 1
 N1 = 3
 N2 = 2
 Vals <- V101
 Walls = {TRUE, FALSE}
INVARIANTS Unique GradOk WallsKept Solvable
CHECK_DEADLOCK FALSE
