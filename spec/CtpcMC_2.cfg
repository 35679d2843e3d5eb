SPECIFICATION Spec
CONSTANTS Cands=2 Emit=TRUE
INVARIANTS SameResult Kept EmitTest
CHECK_DEADLOCK FALSE
