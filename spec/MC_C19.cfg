SPECIFICATION Spec
CONSTANTS Shape <- N44
 MaxTerms = 2
INVARIANTS AnyOrder Nested Mismatch NoPush Partition TrigRight Parseval
CHECK_DEADLOCK FALSE
