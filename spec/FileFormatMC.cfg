SPECIFICATION Spec
INVARIANT Stuck
CHECK_DEADLOCK FALSE
