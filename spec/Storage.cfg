SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Small
VIEW Shape
INVARIANT Refines
INVARIANT Outside
