SPECIFICATION Spec
CONSTANTS Cands=3 Emit=TRUE
INVARIANTS SameResult Kept EmitTest
CHECK_DEADLOCK FALSE
