SPECIFICATION Spec
CONSTANTS MaxN=4 MaxCard=4
INVARIANTS Onto OnlyParents Inverse2 SmallestLeast SeqSame
CHECK_DEADLOCK FALSE
