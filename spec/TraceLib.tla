----------------------------- MODULE TraceLib -----------------------------
(* Reading a recorded trace and deciding whether it was consumed entirely.   *)
EXTENDS Base, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l          \* number of the next line of the trace

Ev == Trace[l]
More == l <= Len(Trace)
IsEvent(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1

\* One state per consumed line plus the initial state; the driver reads the
\* reached position from the output.
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
