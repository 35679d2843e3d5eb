SPECIFICATION Spec
CONSTANT MaxLen=4
INVARIANT AtMostOne
PROPERTY Kept
ACTION_CONSTRAINT EmitTest
CHECK_DEADLOCK FALSE
