CONSTANT SharedScratch = TRUE
SPECIFICATION Spec
INVARIANTS Alone Prefix
CHECK_DEADLOCK FALSE
