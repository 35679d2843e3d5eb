SPECIFICATION Spec
CONSTANTS Card=2 U=1 Full=TRUE
INVARIANTS Local Sound EmitTest
CHECK_DEADLOCK FALSE
