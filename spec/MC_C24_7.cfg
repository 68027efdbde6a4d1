SPECIFICATION Spec
CONSTANTS M = 7
 N = 4
 Maps <- More
 Covs <- Two
INVARIANTS PushedForward Adjoint Recomputed Half
CHECK_DEADLOCK FALSE
