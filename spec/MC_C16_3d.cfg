SPECIFICATION Spec
CONSTANTS Ns <- N222
 MaxPad = 1
 Ker <- K212
INVARIANTS HaloRight JoinRight RoundTrip Equivariant
CHECK_DEADLOCK FALSE
