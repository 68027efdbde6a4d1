SPECIFICATION Spec
CONSTANTS MaxLen = 3
 N = 4
 GenMode = FALSE
INVARIANTS TypeOK InsideUntouched Wraps WallMet PadTwice ShiftReads
CHECK_DEADLOCK FALSE
