SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Exact
INVARIANT Described
INVARIANT Chains
