CONSTANTS
  End = 4
  D = 3
  MaxJumps = 6
  Discounted = FALSE
SPECIFICATION Spec
INVARIANTS AsDefined OneBeyond Telescopes
CHECK_DEADLOCK FALSE
