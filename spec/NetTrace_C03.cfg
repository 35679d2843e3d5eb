SPECIFICATION TraceSpec
CONSTANTS CheckStruct=FALSE CheckParams=FALSE CheckIndex=TRUE
INVARIANTS ParentChildInverse EdgesInRange ParamsFresh
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
