SPECIFICATION Spec
CONSTANTS Bug = "none"
N = 5
INVARIANTS Agree InRange
CHECK_DEADLOCK FALSE
