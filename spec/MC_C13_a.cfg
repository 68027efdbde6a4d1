SPECIFICATION Spec
CONSTANTS N1 = 4
 N2 = 2
 Vals <- V01
 Fac = 2
 Line4 = FALSE
INVARIANTS Commutes Totals Chain TopHatMean TopHatBounds TopHatSize
CHECK_DEADLOCK FALSE
