SPECIFICATION Spec
CONSTANTS Bug = "flip"
N = 2
INVARIANTS Agree InRange
CHECK_DEADLOCK FALSE
