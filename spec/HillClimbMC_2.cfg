SPECIFICATION Spec
CONSTANTS Others=2 SampleMod=1
INVARIANTS AlwaysFeasible StopsAtOptimum EmitTest
PROPERTY Climbs
CHECK_DEADLOCK FALSE
