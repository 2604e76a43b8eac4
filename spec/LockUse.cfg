SPECIFICATION Spec
INVARIANT Exclusion
INVARIANT Holder
PROPERTY Completes
