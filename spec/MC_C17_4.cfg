SPECIFICATION Spec
CONSTANTS Size = 4
 Vals <- V3
 Ords = {0, 1}
INVARIANTS Exact Nested Counted
CHECK_DEADLOCK FALSE
