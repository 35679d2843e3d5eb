SPECIFICATION Spec
CONSTANTS Shape <- Shape23
          Rates <- Rates01
INVARIANTS RowSums OffDiag OneChange Dynamics
CHECK_DEADLOCK FALSE
