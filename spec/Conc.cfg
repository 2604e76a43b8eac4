SPECIFICATION Spec
INVARIANT Linearizable
INVARIANT Mutex
INVARIANT NoDeadlock
CHECK_DEADLOCK FALSE
