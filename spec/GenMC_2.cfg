CONSTANTS
  Start = 2
  MaxNodes = 3
  MaxOps = 4
SPECIFICATION Spec
INVARIANTS Bounds Selfs EmitTest
CHECK_DEADLOCK FALSE
