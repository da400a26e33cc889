SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Emit
CHECK_DEADLOCK FALSE
