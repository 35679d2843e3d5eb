SPECIFICATION Spec
INVARIANTS Onto ClosedForm
CHECK_DEADLOCK FALSE
