SPECIFICATION Spec
CONSTANTS Shape <- Shape3
          Rates <- R13
          MaxPar = 2
INVARIANTS RateAtDraw InDomain NeverStuck
PROPERTY OneMoveP
CHECK_DEADLOCK FALSE
