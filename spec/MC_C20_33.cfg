SPECIFICATION Spec
CONSTANTS Shape <- N33
 Amps = {0, 1}
 MaxSteps = 1
 Schemes = {"linear", "upwind", "vanleer2"}
INVARIANTS Momentum Steady Takes Ratio SameForm Unique
CHECK_DEADLOCK FALSE
