SPECIFICATION Spec
CONSTANTS Dims = 2
 N = 2
 Vals <- V102
 Hs <- H2
INVARIANTS Unique Explicit
CHECK_DEADLOCK FALSE
