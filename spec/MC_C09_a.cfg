SPECIFICATION Spec
CONSTANTS N1 = 2
 N2 = 2
 Vals <- V101
INVARIANTS Unique Symmetric Negative Range0
CHECK_DEADLOCK FALSE
