SPECIFICATION TraceSpec
CONSTANTS CheckStruct=FALSE CheckParams=TRUE CheckIndex=FALSE
INVARIANTS ParentChildInverse EdgesInRange ParamsFresh
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
