SPECIFICATION Spec
CONSTANTS M = 3
 N = 5
 Maps <- Some
 Covs <- All2
INVARIANTS PushedForward Adjoint Recomputed Half
CHECK_DEADLOCK FALSE
