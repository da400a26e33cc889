SPECIFICATION Spec
VIEW View
INVARIANT FindInv
INVARIANT DictInv
INVARIANT NamingInv
CHECK_DEADLOCK FALSE
