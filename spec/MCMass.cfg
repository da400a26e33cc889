SPECIFICATION Spec
INVARIANTS Moments Energy
CHECK_DEADLOCK FALSE
