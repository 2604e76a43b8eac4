SPECIFICATION Spec
INVARIANTS Owns Exposes
CHECK_DEADLOCK FALSE
