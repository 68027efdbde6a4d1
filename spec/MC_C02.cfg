SPECIFICATION Spec
CONSTANTS N = 3
 MaxPad = 2
 TwoD = FALSE
 GenMode = FALSE
INVARIANTS Idempotent Untouched WallValues InteriorOnly Domain
CHECK_DEADLOCK FALSE
