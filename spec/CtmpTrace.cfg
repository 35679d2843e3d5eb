SPECIFICATION TraceSpec
INVARIANT AtMostOne
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
