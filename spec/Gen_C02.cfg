SPECIFICATION Spec
CONSTANTS N = 3
 MaxPad = 1
 TwoD = TRUE
 GenMode = TRUE

CHECK_DEADLOCK FALSE
