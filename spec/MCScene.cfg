SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Once
INVARIANT Rooted
INVARIANT Complete
INVARIANT Moves
CHECK_DEADLOCK FALSE
