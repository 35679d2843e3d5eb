SPECIFICATION Spec
CONSTANTS N = 4
  W = 3
INVARIANTS Same Once
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
