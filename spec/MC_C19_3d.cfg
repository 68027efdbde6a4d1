SPECIFICATION Spec
CONSTANTS Shape <- N322
 MaxTerms = 1
INVARIANTS AnyOrder Nested Mismatch NoPush Partition TrigRight Parseval
CHECK_DEADLOCK FALSE
