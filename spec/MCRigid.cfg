SPECIFICATION Spec
VIEW View
INVARIANT Group
INVARIANT Adjoint
INVARIANT Lie
CHECK_DEADLOCK FALSE
