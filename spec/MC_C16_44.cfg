SPECIFICATION Spec
CONSTANTS Ns <- N6
 MaxPad = 2
 Ker <- K23
INVARIANTS HaloRight JoinRight RoundTrip Equivariant
CHECK_DEADLOCK FALSE
