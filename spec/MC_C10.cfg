SPECIFICATION Spec
INVARIANTS Closed OnConstraint Terminates Orders
CHECK_DEADLOCK FALSE
