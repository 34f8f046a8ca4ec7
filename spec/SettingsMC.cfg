SPECIFICATION Spec
CONSTANT MaxSteps = 4
INVARIANT Persist
INVARIANT Refusal
CHECK_DEADLOCK FALSE
