SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Ordered
INVARIANT Ports
INVARIANT Nearest
INVARIANT Complete
PROPERTY Ends
