SPECIFICATION Spec
CONSTANTS Cards <- CardsB MaxSets=2
INVARIANTS Additive EmitTest
CHECK_DEADLOCK FALSE
