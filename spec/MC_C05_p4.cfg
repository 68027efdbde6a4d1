SPECIFICATION Spec
CONSTANTS N = 4
 Vals <- V3
 MaxMoves = 3
 Kind = "P"
INVARIANTS Moving Whole Donors LimitedLaws Region Points WrapFaces
CHECK_DEADLOCK FALSE
