SPECIFICATION Spec
CONSTANTS Shape <- N3
 Amps = {0, 1}
 MaxSteps = 3
 Schemes = {"linear", "upwind", "vanleer2"}
INVARIANTS Momentum Steady Takes Ratio SameForm Unique
CHECK_DEADLOCK FALSE
