SPECIFICATION Spec
INVARIANT CallsInv
INVARIANT OrderInv
INVARIANT SolveInv
INVARIANT MotionInv
CHECK_DEADLOCK FALSE
