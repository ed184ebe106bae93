SPECIFICATION Spec
CONSTANTS
 NSig = 1
 NThr = 1
 MaxSlots = 2
 MaxDepth = 1
 MaxEmits = 1
 NCon = 2
 NScp = 1
 NBlk = 2
 AllowMove = FALSE
INVARIANTS Inv SnapshotInv
PROPERTIES VisitOk Final DeadFinal Conserve
CHECK_DEADLOCK FALSE
