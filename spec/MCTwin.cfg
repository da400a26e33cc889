SPECIFICATION Spec
INVARIANT SameMotion
CHECK_DEADLOCK FALSE
