SPECIFICATION Spec
CONSTANTS Bug = "none"
MaxN = 4
INVARIANTS OneHandler Effect Total
CHECK_DEADLOCK FALSE
