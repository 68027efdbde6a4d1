SPECIFICATION Spec
CONSTANTS N = 3
 MaxPad = 1
 TwoD = TRUE
 GenMode = FALSE
INVARIANTS Idempotent Untouched WallValues InteriorOnly Domain
CHECK_DEADLOCK FALSE
