SPECIFICATION Spec
INVARIANTS SamePoses SameDynamics Emit
CHECK_DEADLOCK FALSE
