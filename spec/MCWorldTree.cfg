SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY ReplaceProp
PROPERTY Grows
CHECK_DEADLOCK FALSE
