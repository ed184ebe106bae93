SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS Algebra Walks Names
CHECK_DEADLOCK FALSE
