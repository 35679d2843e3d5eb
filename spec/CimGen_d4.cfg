SPECIFICATION Spec
CONSTANTS Card=4 U=2 Full=TRUE
INVARIANTS Local Sound EmitTest
CHECK_DEADLOCK FALSE
