SPECIFICATION Spec
CONSTANTS Rows = 6
 Cols = 6
 MaxModes = 3
INVARIANTS Laws Conserve NoAlias Rule32 Complexes
CHECK_DEADLOCK FALSE
