SPECIFICATION Spec
CONSTANTS Cards <- CardsA MaxSets=3
INVARIANTS Additive EmitTest
CHECK_DEADLOCK FALSE
