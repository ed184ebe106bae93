SPECIFICATION Spec
CONSTANTS
 NSig = 2
 NThr = 1
 MaxSlots = 3
 MaxDepth = 1
 MaxEmits = 1
 NCon = 2
 NScp = 0
 NBlk = 0
 AllowMove = TRUE
INVARIANTS Inv SnapshotInv
PROPERTIES VisitOk Final DeadFinal Conserve
CHECK_DEADLOCK FALSE
