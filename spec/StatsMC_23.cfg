SPECIFICATION Spec
CONSTANTS CardsA=2 CardsB=3 MaxRows=3 MaxTrajs=1 Dts={1,2} Emit=TRUE
INVARIANTS Incremental Laws EmitTest
CHECK_DEADLOCK FALSE
