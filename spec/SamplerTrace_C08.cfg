SPECIFICATION TraceSpec
CONSTANTS CheckForm=FALSE CheckPos=FALSE CheckLaw=TRUE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
