SPECIFICATION Spec
CONSTANTS CardsA=2 CardsB=2 MaxRows=4 MaxTrajs=3 Dts={0,1} Emit=TRUE
INVARIANTS Incremental Laws EmitTest
CHECK_DEADLOCK FALSE
