SPECIFICATION Spec
CONSTANTS Rows = 7
 Cols = 8
 MaxModes = 2
INVARIANTS Laws Conserve NoAlias Rule32 Complexes
CHECK_DEADLOCK FALSE
