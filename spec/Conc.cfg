CONSTANT SharedScratch = FALSE
SPECIFICATION Spec
INVARIANTS Alone Prefix
CHECK_DEADLOCK FALSE
