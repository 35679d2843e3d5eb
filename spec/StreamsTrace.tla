---------------------------- MODULE StreamsTrace --------------------------
EXTENDS Streams, TraceLib
tvars == <<comp, memo, l>>
TraceInit == SInit /\ l = 1
TTest == IsEvent("test") /\ comp' = <<>> /\ memo' = <<>>
TNew == IsEvent("new") /\ New(Ev.slot, Ev.kind, Ev.inp, Ev.seed)
TReset == IsEvent("reset") /\ Reset(Ev.slot)
TUse == /\ IsEvent("use") /\ Use(Ev.slot, Ev.arg, Ev.d, ToSet0(Ev.parts))
        /\ \A i, j \in DOMAIN Ev.parts : i # j => Ev.parts[i] # Ev.parts[j]
\* many seeds, one use each: all results differ, and all their parts
TSeeds == /\ IsEvent("seeds") /\ UNCHANGED svars
          /\ Len(Ev.d) = Ev.n /\ Cardinality(ToSet0(Ev.d)) = Ev.n
          /\ Cardinality(ToSet0(Ev.parts)) = Len(Ev.parts)
\* the random values behind several uses with several seeds: no stretch of random
\* numbers serves twice (up to chance)
TOverlap == /\ IsEvent("overlap") /\ UNCHANGED svars
            /\ LET n == SumSeq([i \in DOMAIN Ev.uses |-> Len(Ev.uses[i])])
                   d == Cardinality(UNION {ToSet0(Ev.uses[i]) : i \in DOMAIN Ev.uses})
               IN n > 100 /\ 200 * (n - d) <= n
\* thousands of uses of one component never repeat
TFresh == /\ IsEvent("fresh") /\ UNCHANGED svars
          /\ Ev.n >= 30 /\ Ev.d = Ev.n
TraceNext == TFresh \/ TOverlap \/ TSeeds \/ TTest \/ TNew \/ TReset \/ TUse
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
