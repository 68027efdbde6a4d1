SPECIFICATION Spec
CONSTANTS Dims = 1
 N = 4
 CVals <- V102
 UVals <- V102
 Walls = FALSE
INVARIANTS Laws Agree SelfAdvection
CHECK_DEADLOCK FALSE
