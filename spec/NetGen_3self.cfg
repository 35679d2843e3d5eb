SPECIFICATION Spec
VIEW View
CONSTANTS MaxNodes=3 WithSelf=TRUE WithCim=FALSE WithStats=FALSE Emit=TRUE
INVARIANTS ParentChildInverse EdgesInRange ParamsFresh
PROPERTIES Stable Kept
ACTION_CONSTRAINT EmitTest
CHECK_DEADLOCK FALSE
