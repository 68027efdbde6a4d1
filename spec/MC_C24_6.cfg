SPECIFICATION Spec
CONSTANTS M = 5
 N = 6
 Maps <- Some
 Covs <- Two
INVARIANTS PushedForward Adjoint Recomputed Half
CHECK_DEADLOCK FALSE
