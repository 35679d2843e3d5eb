SPECIFICATION Spec
CONSTANT MaxLen=5
INVARIANT AtMostOne
PROPERTY Kept
ACTION_CONSTRAINT EmitTest
CHECK_DEADLOCK FALSE
