SPECIFICATION Spec
INVARIANTS Kinematics Dynamics
CHECK_DEADLOCK FALSE
