SPECIFICATION Spec
CONSTANTS Cards <- CardsA MaxSets=2
INVARIANTS Additive EmitTest
CHECK_DEADLOCK FALSE
