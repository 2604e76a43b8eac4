SPECIFICATION FootSpec
INVARIANT FootLaws
CHECK_DEADLOCK FALSE
