SPECIFICATION Spec
INVARIANTS Complete EachOnce Split Shifted
CHECK_DEADLOCK FALSE
