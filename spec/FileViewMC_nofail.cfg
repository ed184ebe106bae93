SPECIFICATION Spec
CONSTANTS Views = {1, 2}
  MaxOpens = 3
  Mutant = "nofail"
INVARIANTS Judged NoLeak NoDescriptorKept
CHECK_DEADLOCK FALSE
