SPECIFICATION Spec
CONSTANTS Nodes=2 MaxLen=3
INVARIANTS Right EmitTest
CHECK_DEADLOCK FALSE
