SPECIFICATION Spec
INVARIANTS Complete FailedIfReached ExactPrefix NotBeyond Prefix
PROPERTIES Sticky Returns
CHECK_DEADLOCK FALSE
