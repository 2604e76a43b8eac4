SPECIFICATION Spec
INVARIANTS Independent HeldStay Apart
CHECK_DEADLOCK FALSE
