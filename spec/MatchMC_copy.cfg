SPECIFICATION Spec
CONSTANTS Bug = "copy"
MaxN = 2
INVARIANTS OneHandler Effect Total
CHECK_DEADLOCK FALSE
