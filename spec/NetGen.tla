------------------------------ MODULE NetGen ------------------------------
(* Exhaustive exploration of Net in small scope.  `hist` is hidden by VIEW, *)
(* so every reachable network is visited once, and every transition out of  *)
(* it is printed as one test: the shortest history leading there, the       *)
(* operation, and the network expected afterwards.                          *)
EXTENDS Net, Json

CONSTANTS MaxNodes, WithSelf, WithCim, WithStats, Emit

VARIABLE hist
vars == <<nodes, adj, hist>>
View == netvars

Op(name, a, b) == hist' = Append(hist, [op |-> name, a |-> a, b |-> b])

Init == NetInit /\ hist = <<>>

CardOf(i) == 2 + (i % 2)

Next ==
  \/ N < MaxNodes /\ AddNode("n", CardOf(N)) /\ Op("AddNode", CardOf(N), 0)
  \/ InitStructure /\ Op("Init", 0, 0)
  \/ \E p, c \in Nodes : /\ WithSelf \/ p # c
                         /\ AddEdge(p, c) /\ Op("AddEdge", p, c)
  \* densities 0 and 1, and score-based learning with a score that grows with the number
  \* of parents or falls with it
  \/ N > 0 /\ ReplaceStructure({}) /\ \/ Op("Graph", 0, 0) \/ Op("Learn", 0, 0)
  \/ N > 0 /\ ReplaceStructure(CompleteGraph) /\ \/ Op("Graph", 1, 0) \/ Op("Learn", 1, 0)
  \/ WithCim /\ N > 0 /\ GenParams([i \in 1 .. N |-> 1]) /\ Op("GenParams", 0, 0)
  \/ WithCim /\ \E n \in Nodes :
       \/ SetCim(n, 1) /\ Op("SetCim", n, 1)
       \/ RejectCim(n) /\ Op("RejectCim", n, 0)
  \/ WithStats /\ \E n \in Nodes :
       \/ SetTr(n, 1) /\ Op("SetTr", n, 1)
       \/ SetRt(n, 1) /\ Op("SetRt", n, 1)
       \/ ResetParams(n) /\ Op("Reset", n, 0)

Spec == Init /\ [][Next]_vars

Expect == [init |-> adj' # {},
           edges |-> SetToSeq(UNION adj'),
           cards |-> [i \in 1 .. Len(nodes') |-> nodes'[i].card],
           cim |-> [i \in 1 .. Len(nodes') |-> nodes'[i].cim],
           tr |-> [i \in 1 .. Len(nodes') |-> nodes'[i].tr],
           rt |-> [i \in 1 .. Len(nodes') |-> nodes'[i].rt]]

EmitTest == (~Emit) \/ PrintT("@@" \o ToJson([ops |-> hist', expect |-> Expect]))

Stable == [][NumberingStable]_vars
Kept == [][OthersKept]_vars
=============================================================================
