SPECIFICATION Spec
INVARIANTS Correct Progress
CHECK_DEADLOCK FALSE
