SPECIFICATION Spec
CONSTANTS Shape <- N35
 MaxTerms = 3
INVARIANTS AnyOrder Nested Mismatch NoPush Partition TrigRight Parseval
CHECK_DEADLOCK FALSE
