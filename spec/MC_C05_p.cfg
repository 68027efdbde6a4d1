SPECIFICATION Spec
CONSTANTS N = 3
 Vals <- V3
 MaxMoves = 2
 Kind = "P"
INVARIANTS Moving Whole Donors LimitedLaws Region Points WrapFaces
CHECK_DEADLOCK FALSE
