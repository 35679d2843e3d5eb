SPECIFICATION TraceSpec
CONSTANTS CheckStats=FALSE CheckFit=TRUE CheckScore=FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
