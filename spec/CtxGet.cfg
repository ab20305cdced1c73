SPECIFICATION Spec
INVARIANTS TypedResult DataFirst NothingElsewhere Terminates
CHECK_DEADLOCK FALSE
