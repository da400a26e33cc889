SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Trees Masses Sizes Symmetry Dofs
