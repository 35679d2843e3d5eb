SPECIFICATION TraceSpec
CONSTANTS CheckForm=FALSE CheckPos=TRUE CheckLaw=FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
