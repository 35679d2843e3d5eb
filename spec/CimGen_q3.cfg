SPECIFICATION Spec
CONSTANTS Card=3 U=2 Full=TRUE
INVARIANTS Local Sound EmitTest
CHECK_DEADLOCK FALSE
