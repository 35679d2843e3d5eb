SPECIFICATION Spec
CONSTANTS Shape <- Shape22
          Rates <- Rates12
INVARIANTS RowSums OffDiag OneChange Dynamics
CHECK_DEADLOCK FALSE
