SPECIFICATION Spec
CONSTANTS N1 = 3
 N2 = 3
 Vals <- V01
INVARIANTS Unique Symmetric Negative Range0
CHECK_DEADLOCK FALSE
