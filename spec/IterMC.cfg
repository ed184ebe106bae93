SPECIFICATION Spec
CONSTANTS Bug = "none"
N = 3
INVARIANTS Agree InRange
CHECK_DEADLOCK FALSE
