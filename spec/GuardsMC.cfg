SPECIFICATION Spec
INVARIANTS EmitTest
CHECK_DEADLOCK FALSE
