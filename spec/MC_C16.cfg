SPECIFICATION Spec
CONSTANTS Ns <- N43
 MaxPad = 2
 Ker <- K23
INVARIANTS HaloRight JoinRight RoundTrip Equivariant
CHECK_DEADLOCK FALSE
