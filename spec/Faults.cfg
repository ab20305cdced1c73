SPECIFICATION Spec
VIEW View
INVARIANTS Complete FailedIfReached ExactPrefix NotBeyond
CHECK_DEADLOCK FALSE
