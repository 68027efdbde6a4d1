SPECIFICATION Spec
CONSTANTS Size = 2
 Vals <- V5
 Ords = {0, 1}
INVARIANTS Exact Nested Counted
CHECK_DEADLOCK FALSE
