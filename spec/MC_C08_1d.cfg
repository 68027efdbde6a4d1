SPECIFICATION Spec
CONSTANTS Dims = 1
 N = 4
 Vals <- V102
 Hs <- H1
INVARIANTS Unique Explicit
CHECK_DEADLOCK FALSE
