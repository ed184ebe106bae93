SPECIFICATION Spec
CONSTANTS Alpha = {47, 46, 37, 50, 69, 70}
  MaxLen = 8
INVARIANTS Refines BufferIsJoin SegsOK Root UpOne Again Depth
CHECK_DEADLOCK FALSE
