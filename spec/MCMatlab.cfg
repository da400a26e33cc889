SPECIFICATION Spec
INVARIANTS Writes Tells Poses Chains Ends
CHECK_DEADLOCK FALSE
