SPECIFICATION Spec
INVARIANTS Minimal Lipschitz Invariant Witnesses
CHECK_DEADLOCK FALSE
