SPECIFICATION Spec
CONSTANTS Others=3 SampleMod=41
INVARIANTS AlwaysFeasible StopsAtOptimum EmitTest
PROPERTY Climbs
CHECK_DEADLOCK FALSE
