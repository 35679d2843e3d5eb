SPECIFICATION Spec
CONSTANTS Shape <- Shape2
          Rates <- R13
          MaxPar = 1
INVARIANTS RateAtDraw InDomain NeverStuck
PROPERTY OneMoveP
CHECK_DEADLOCK FALSE
