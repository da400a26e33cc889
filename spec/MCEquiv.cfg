SPECIFICATION Spec
INVARIANTS SamePoses SameDynamics
CHECK_DEADLOCK FALSE
