SPECIFICATION Spec
CONSTANTS Shape <- Shape222
          Rates <- Rates1
INVARIANTS RowSums OffDiag OneChange Dynamics
CHECK_DEADLOCK FALSE
