SPECIFICATION Spec
CONSTANTS Bug = "none"
MaxW = 2
INVARIANTS CodeIsVisit Complete Query AnyOK
PROPERTY Frame
CHECK_DEADLOCK FALSE
