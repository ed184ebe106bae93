SPECIFICATION Spec
CONSTANTS Views = {1, 2, 3}
  MaxOpens = 4
  Mutant = "none"
INVARIANTS Judged NoLeak NoDescriptorKept
CHECK_DEADLOCK FALSE
