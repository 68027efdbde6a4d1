SPECIFICATION Spec
CONSTANTS NB = 2
 MaxLen = 5
 GenMode = FALSE
INVARIANTS StepCounts StateIsTheReplay OrderFree Descent
CHECK_DEADLOCK FALSE
