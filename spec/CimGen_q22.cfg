SPECIFICATION Spec
CONSTANTS Card=2 U=3 Full=TRUE
INVARIANTS Local Sound EmitTest
CHECK_DEADLOCK FALSE
