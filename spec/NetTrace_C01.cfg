SPECIFICATION TraceSpec
CONSTANTS CheckStruct=TRUE CheckParams=FALSE CheckIndex=FALSE
INVARIANTS ParentChildInverse EdgesInRange ParamsFresh
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
