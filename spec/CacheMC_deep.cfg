SPECIFICATION Spec
CONSTANTS Nodes=2 MaxLen=4
INVARIANTS Right EmitTest
CHECK_DEADLOCK FALSE
