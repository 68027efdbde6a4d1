SPECIFICATION Spec
CONSTANTS MaxLen = 2
 N = 3
 GenMode = FALSE
INVARIANTS TypeOK InsideUntouched Wraps WallMet PadTwice ShiftReads
CHECK_DEADLOCK FALSE
