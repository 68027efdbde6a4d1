SPECIFICATION Spec
CONSTANTS Dims = 2
 N = 2
 CVals = {0, 1}
 UVals = {0, 1}
 Walls = FALSE
INVARIANTS Laws Agree SelfAdvection
CHECK_DEADLOCK FALSE
