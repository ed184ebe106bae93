SPECIFICATION Spec
CONSTANTS Bytes = {0, 1, 97, 127, 128, 255}
  MaxLen = 4
  Mutant = "fnv1"
INVARIANTS Arith Stepwise Apart
CHECK_DEADLOCK FALSE
