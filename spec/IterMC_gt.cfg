SPECIFICATION Spec
CONSTANTS Bug = "gt"
N = 2
INVARIANTS Agree InRange
CHECK_DEADLOCK FALSE
