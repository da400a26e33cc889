SPECIFICATION Spec
INVARIANT Refines
INVARIANT Ordered
CHECK_DEADLOCK FALSE
