SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
  Tags = {"a", "b"}
  Vals = {1, 2}
  MaxOps = 6
  Relink = FALSE
INVARIANTS Refines Laws
CHECK_DEADLOCK FALSE
