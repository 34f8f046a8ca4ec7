SPECIFICATION Spec
CONSTANT D = 60
INVARIANTS Neighbour Exact Saturates Unbiased SearchOK
CHECK_DEADLOCK FALSE
