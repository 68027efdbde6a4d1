SPECIFICATION Spec
CONSTANTS NB = 3
 MaxLen = 7
 GenMode = TRUE
INVARIANTS StepCounts
CHECK_DEADLOCK FALSE
