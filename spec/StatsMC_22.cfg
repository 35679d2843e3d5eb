SPECIFICATION Spec
CONSTANTS CardsA=2 CardsB=2 MaxRows=3 MaxTrajs=2 Dts={0,1,3} Emit=TRUE
INVARIANTS Incremental Laws EmitTest
CHECK_DEADLOCK FALSE
