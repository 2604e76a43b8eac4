SPECIFICATION Spec
INVARIANT Correct
INVARIANT Untouched
INVARIANT Idempotent
INVARIANT OnlyTemplatesMatter
PROPERTY Terminates
CHECK_DEADLOCK FALSE
