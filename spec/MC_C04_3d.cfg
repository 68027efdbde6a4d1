SPECIFICATION Spec
CONSTANTS Dims = 3
 Sizes = {2, 3}
INVARIANT All
CHECK_DEADLOCK FALSE
