SPECIFICATION Spec
CONSTANTS Bug = "none"
MaxN = 2
INVARIANTS OneHandler Effect Total
CHECK_DEADLOCK FALSE
