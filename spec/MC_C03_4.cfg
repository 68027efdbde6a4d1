SPECIFICATION Spec
CONSTANTS MaxRegs = 4
 Vals = {0, 1}
INVARIANTS Provenance ElementWise Commute NegSub Means GridLaws
CHECK_DEADLOCK FALSE
