SPECIFICATION Spec
CONSTANTS MaxLen = 4
 N = 3
 GenMode = TRUE
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
