SPECIFICATION Spec
CONSTANTS N = 3
 Vals <- V3
 MaxMoves = 0
 Kind = "W"
INVARIANTS Affine Region Points
CHECK_DEADLOCK FALSE
