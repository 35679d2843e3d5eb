SPECIFICATION Spec
CONSTANTS Others=3 SampleMod=5
INVARIANTS AlwaysFeasible StopsAtOptimum EmitTest
PROPERTY Climbs
CHECK_DEADLOCK FALSE
