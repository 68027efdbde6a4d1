SPECIFICATION Spec
CONSTANTS Shape <- N32
 Amps = {0, 1}
 MaxSteps = 2
 Schemes = {"linear", "upwind", "vanleer2"}
INVARIANTS Momentum Steady Takes Ratio SameForm Unique
CHECK_DEADLOCK FALSE
