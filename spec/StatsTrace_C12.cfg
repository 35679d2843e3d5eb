SPECIFICATION TraceSpec
CONSTANTS CheckStats=TRUE CheckFit=FALSE CheckScore=FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
