CONSTANTS
  Start = 3
  MaxNodes = 4
  MaxOps = 3
SPECIFICATION Spec
INVARIANTS Bounds Selfs EmitTest
CHECK_DEADLOCK FALSE
