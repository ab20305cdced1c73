SPECIFICATION Spec
VIEW View
INVARIANT Sane
INVARIANT PropHolds
PROPERTY HeapGrows
CHECK_DEADLOCK FALSE
