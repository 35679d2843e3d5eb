SPECIFICATION Spec
CONSTANTS N = 5
  W = 3
INVARIANTS Same Once
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
