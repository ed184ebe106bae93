SPECIFICATION Spec
CONSTANTS
 NSig = 1
 NThr = 1
 MaxSlots = 3
 MaxDepth = 2
 MaxEmits = 2
 NCon = 2
 NScp = 0
 NBlk = 0
 AllowMove = FALSE
INVARIANTS Inv SnapshotInv
PROPERTIES VisitOk Final DeadFinal Conserve
CHECK_DEADLOCK FALSE
