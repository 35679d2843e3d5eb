SPECIFICATION TraceSpec
CONSTANTS CheckStats=FALSE CheckFit=FALSE CheckScore=TRUE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
