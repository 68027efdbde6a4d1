SPECIFICATION Spec
INVARIANTS Steady ExplicitLimit ImplicitLimit Consistent SilConsistent
CHECK_DEADLOCK FALSE
