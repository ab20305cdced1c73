SPECIFICATION Spec
VIEW View
INVARIANTS PropC18 Nested
CHECK_DEADLOCK FALSE
