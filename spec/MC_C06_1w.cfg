SPECIFICATION Spec
CONSTANTS Dims = 1
 N = 4
 CVals = {0, 1}
 UVals <- V101
 Walls = TRUE
INVARIANTS Laws Agree SelfAdvection
CHECK_DEADLOCK FALSE
