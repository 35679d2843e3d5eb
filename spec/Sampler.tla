------------------------------ MODULE Sampler -----------------------------
(* Forward sampling of a CTBN: every node holds a scheduled time (or none);  *)
(* the earliest one fires, moves its node and cancels the schedules of the   *)
(* node and of its children.  Times are abstract: what is kept of a schedule *)
(* is the rate it was drawn with (ghost), because that decides its law.      *)
EXTENDS Ctbn

VARIABLES net,      \* see Ctbn
          cur,      \* current joint state
          sched     \* per node: 0 (nothing scheduled) or the rate of the draw

svars == <<net, cur, sched>>

ChildrenOf(i) == {c \in Nds(net) : i \in ToSet0(At(net.pars, c))}
AllScheduled == \A i \in Nds(net) : At(sched, i) # 0

SReset(st) == /\ cur' = st
              /\ sched' = [i \in 1 .. NN(net) |-> 0]
              /\ UNCHANGED net

Draw(i) == /\ At(sched, i) = 0
           /\ sched' = [sched EXCEPT ![i + 1] = Exit(net, i, cur)]
           /\ UNCHANGED <<net, cur>>

Fire(i, y) ==
  /\ AllScheduled
  /\ <<i, y>> \in JumpSet(net, cur)
  /\ cur' = Moved(cur, i, y)
  /\ sched' = [j \in 1 .. NN(net) |-> IF j - 1 = i \/ (j - 1) \in ChildrenOf(i) THEN 0 ELSE sched[j]]
  /\ UNCHANGED net

\* one call of next(): all missing draws, then the earliest one
Jump(i, y) == <<i, y>> \in JumpSet(net, cur) /\ cur' = Moved(cur, i, y)

\* C08: whatever was scheduled before, what is waiting now was drawn with the
\* rate the node has in the current joint state; exponentials being memoryless,
\* the holding time and the choice follow the current intensities.
RateAtDraw == \A i \in Nds(net) : At(sched, i) # 0 => At(sched, i) = Exit(net, i, cur)
InDomain == \A i \in Nds(net) : At(cur, i) \in 0 .. (At(net.cards, i) - 1)
\* C06 / C07 as action properties
OneMove == cur' # cur =>
  \E i \in Nds(net) : /\ \A j \in Nds(net) \ {i} : At(cur', j) = At(cur, j)
                      /\ Rate(net, i, cur, At(cur', i)) > 0
=============================================================================
