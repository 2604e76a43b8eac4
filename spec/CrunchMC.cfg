SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Laws
CHECK_DEADLOCK FALSE
