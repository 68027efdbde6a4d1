SPECIFICATION Spec
CONSTANTS Dims = 2
 N = 3
 CVals = {0, 1}
 UVals = {0, 2}
 Walls = TRUE
INVARIANTS Laws Agree SelfAdvection
CHECK_DEADLOCK FALSE
