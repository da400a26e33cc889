SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Right
INVARIANT Complete
INVARIANT Others
