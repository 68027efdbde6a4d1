SPECIFICATION Spec
CONSTANTS Dims = 2
 Sizes = {2, 3}
INVARIANT All
CHECK_DEADLOCK FALSE
