SPECIFICATION Spec
CONSTANTS
 NSig = 1
 NThr = 2
 MaxSlots = 2
 MaxDepth = 1
 MaxEmits = 2
 NCon = 2
 NScp = 0
 NBlk = 0
 AllowMove = FALSE
INVARIANTS Inv SnapshotInv
PROPERTIES VisitOk Final DeadFinal Conserve
CHECK_DEADLOCK FALSE
