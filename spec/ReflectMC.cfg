SPECIFICATION Spec
CONSTANTS Bug = "none"
MaxW = 1
INVARIANTS CodeIsVisit Complete Query AnyOK
PROPERTY Frame
CHECK_DEADLOCK FALSE
