CONSTANTS
  End = 5
  D = 4
  MaxJumps = 7
  Discounted = TRUE
SPECIFICATION Spec
INVARIANTS AsDefined OneBeyond Telescopes
CHECK_DEADLOCK FALSE
