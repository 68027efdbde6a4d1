SPECIFICATION Spec
CONSTANTS MaxRegs = 3
 Vals = {0, 1, 2}
INVARIANTS Provenance ElementWise Commute NegSub Means GridLaws
CHECK_DEADLOCK FALSE
