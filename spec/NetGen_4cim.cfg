SPECIFICATION Spec
VIEW View
CONSTANTS MaxNodes=4 WithSelf=FALSE WithCim=TRUE WithStats=FALSE Emit=TRUE
INVARIANTS ParentChildInverse EdgesInRange ParamsFresh
PROPERTIES Stable Kept
ACTION_CONSTRAINT EmitTest
CHECK_DEADLOCK FALSE
