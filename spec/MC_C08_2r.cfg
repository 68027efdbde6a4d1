SPECIFICATION Spec
CONSTANTS Dims = 2
 N = 3
 Vals <- V01
 Hs <- H1
INVARIANTS Unique Explicit
CHECK_DEADLOCK FALSE
