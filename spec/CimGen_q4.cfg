SPECIFICATION Spec
CONSTANTS Card=4 U=2 Full=FALSE
INVARIANTS Local Sound EmitTest
CHECK_DEADLOCK FALSE
