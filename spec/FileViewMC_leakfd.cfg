SPECIFICATION Spec
CONSTANTS Views = {1, 2}
  MaxOpens = 3
  Mutant = "leakfd"
INVARIANTS Judged NoLeak NoDescriptorKept
CHECK_DEADLOCK FALSE
