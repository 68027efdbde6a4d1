SPECIFICATION Spec
CONSTANTS NB = 2
 MaxLen = 4
 GenMode = FALSE
INVARIANTS StepCounts StateIsTheReplay OrderFree Descent
CHECK_DEADLOCK FALSE
