-------------------------------- MODULE GenMC ------------------------------
(* Networks under random generators: every sequence of up to MaxOps         *)
(* insertions of nodes and edges (self edges too), generated graphs and      *)
(* generated parameters.  A graph of density 1/2 is not resolved: `must` and *)
(* `may` bound the edges.  Each maximal sequence is printed as a test whose  *)
(* events Generators.tla judges.                                             *)
EXTENDS Base, Json, TLC

CONSTANTS Start, MaxNodes, MaxOps
CardsOf == <<2, 3, 2, 4>>
VARIABLES n, init, must, may, params, hist
vars == <<n, init, must, may, params, hist>>
Nodes == 0 .. (n - 1)
AllPairs == {e \in Nodes \X Nodes : e[1] # e[2]}

Init == n = Start /\ init = FALSE /\ must = {} /\ may = {} /\ params = {} /\ hist = <<>>
Op(k, a, b) == hist' = Append(hist, <<k, a, b>>)

AddNode == /\ n < MaxNodes
           /\ n' = n + 1 /\ init' = FALSE /\ must' = {} /\ may' = {}
           \* the structure goes, and with it the parameters of those that had parents
           /\ params' = {i \in params : \A e \in may : e[2] # i}
           /\ Op("node", At(CardsOf, n), 0)
AddEdge(p, c) == /\ init' = TRUE /\ must' = must \cup {<<p, c>>} /\ may' = may \cup {<<p, c>>}
                 /\ params' = params \ {c}
                 /\ UNCHANGED n
                 /\ Op("edge", p, c)
Graph(num, den) == /\ init' = TRUE
                   /\ may' = (IF num = 0 THEN {} ELSE AllPairs)
                   /\ must' = (IF num = den THEN AllPairs ELSE {})
                   /\ params' = {}          \* some may keep them; not claimed here
                   /\ UNCHANGED n
                   /\ Op("graph", num, den)
Params == /\ init /\ params' = Nodes
          /\ UNCHANGED <<n, init, must, may>>
          /\ Op("params", 0, 0)
Next == /\ Len(hist) < MaxOps
        /\ \/ AddNode
           \/ \E p, c \in Nodes : AddEdge(p, c)
           \/ Graph(0, 1) \/ Graph(1, 2) \/ Graph(1, 1)
           \/ Params
Spec == Init /\ [][Next]_vars

Bounds == must \subseteq may /\ may \subseteq (Nodes \X Nodes) /\ (~init => may = {})
\* a self edge is there exactly if it was inserted after the last generated graph or new node
LastReset == LET R == {i \in DOMAIN hist : hist[i][1] \in {"graph", "node"}}
             IN IF R = {} THEN 0 ELSE CHOOSE i \in R : \A j \in R : j <= i
Selfs == \A i \in Nodes : /\ (<<i, i>> \in may) = (<<i, i>> \in must)
                          /\ (<<i, i>> \in may) = (\E k \in DOMAIN hist : k > LastReset /\ hist[k] = <<"edge", i, i>>)
EmitTest == Len(hist) < MaxOps \/ hist[MaxOps][1] \in {"edge", "node"}
            \/ PrintT("@@" \o ToJson([cards |-> [i \in 1 .. Start |-> CardsOf[i]], ops |-> hist]))
=============================================================================
