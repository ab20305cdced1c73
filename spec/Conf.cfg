SPECIFICATION Spec
VIEW View
INVARIANT Sane
CHECK_DEADLOCK FALSE
