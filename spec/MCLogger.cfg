SPECIFICATION Spec
INVARIANT NamedInv
INVARIANT LossLess
INVARIANT Useful
CHECK_DEADLOCK FALSE
