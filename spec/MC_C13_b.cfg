SPECIFICATION Spec
CONSTANTS N1 = 8
 N2 = 1
 Vals <- V012
 Fac = 2
 Line4 = TRUE
INVARIANTS Commutes Totals Chain TopHatMean TopHatBounds TopHatSize
CHECK_DEADLOCK FALSE
