SPECIFICATION Spec
CONSTANTS Bug = "postnew"
N = 2
INVARIANTS Agree InRange
CHECK_DEADLOCK FALSE
