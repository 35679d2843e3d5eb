SPECIFICATION TraceSpec
CONSTANTS CheckForm=TRUE CheckPos=FALSE CheckLaw=FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
