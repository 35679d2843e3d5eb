SPECIFICATION Spec
INVARIANTS LnOne Step Product
CHECK_DEADLOCK FALSE
