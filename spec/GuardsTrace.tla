----------------------------- MODULE GuardsTrace --------------------------
EXTENDS Guards, TraceLib
TraceInit == l = 1
TGuard == /\ IsEvent("guard")
          /\ Ev.out = (IF Accepts(Ev.what, Ev.x) THEN 1 ELSE 0)
          /\ Ev.kept
TraceSpec == TraceInit /\ [][TGuard]_l
=============================================================================
