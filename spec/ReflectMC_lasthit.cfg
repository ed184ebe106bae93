SPECIFICATION Spec
CONSTANTS Bug = "lasthit"
MaxW = 1
INVARIANTS CodeIsVisit Complete Query AnyOK
PROPERTY Frame
CHECK_DEADLOCK FALSE
