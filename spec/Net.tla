------------------------------- MODULE Net --------------------------------
(* The life of a CTBN: nodes, edges, parameters.                            *)
(* One action per public mutating operation.                                *)
EXTENDS Base

VARIABLES nodes,   \* sequence of node records, in insertion order
          adj      \* {} or {E}: E is the set of edges <<parent, child>>;
                   \* {} while the structure is not initialised

netvars == <<nodes, adj>>

None == 0          \* "no parameters"; any other number stands for a value

Blank(label, card) ==
  [label |-> label, card |-> card, cim |-> None, tr |-> None, rt |-> None,
   \* ghosts: parent set under which each of the three was set
   cimFor |-> {}, trFor |-> {}, rtFor |-> {}]

Cleared(nd) == Blank(nd.label, nd.card)

N == Len(nodes)
Nodes == 0 .. (N - 1)
Cards == [i \in 1 .. N |-> nodes[i].card]
Initialised == adj # {}
Edges == UNION adj
Parents(c) == {e[1] : e \in {x \in Edges : x[2] = c}}
Children(p) == {e[2] : e \in {x \in Edges : x[1] = p}}

NetInit == nodes = <<>> /\ adj = {}

\* Structural reset: the nodes that lose parents lose their parameters too.
DropOrphans == [i \in 1 .. N |-> IF Parents(i - 1) # {} THEN Cleared(nodes[i]) ELSE nodes[i]]

\* Deliberate: inserting a node forgets the whole structure (the library does).
AddNode(label, card) ==
  /\ nodes' = Append(DropOrphans, Blank(label, card))
  /\ adj' = {}

InitStructure ==
  /\ nodes' = DropOrphans
  /\ adj' = {{}}

\* Initialises the structure when needed; re-inserting an edge, however often, clears
\* the child again and changes nothing else.
AddEdge(p, c) ==
  /\ p \in Nodes /\ c \in Nodes
  /\ adj' = {Edges \cup {<<p, c>>}}
  /\ nodes' = [nodes EXCEPT ![c + 1] = Cleared(@)]

\* Random graphs and learned structures: the old edges go, the edges E come
ReplaceStructure(E) ==
  /\ E \subseteq (Nodes \X Nodes)
  /\ adj' = {E}
  /\ nodes' = [i \in 1 .. N |-> IF Parents(i - 1) # {} \/ \E e \in E : e[2] = i - 1
                                THEN Cleared(nodes[i]) ELSE nodes[i]]
CompleteGraph == {e \in Nodes \X Nodes : e[1] # e[2]}

\* Random parameters: every node gets a matrix for its current parents
GenParams(v) ==
  /\ Initialised
  /\ nodes' = [i \in 1 .. N |-> [nodes[i] EXCEPT !.cim = v[i], !.cimFor = Parents(i - 1)]]
  /\ UNCHANGED adj

SetCim(n, v) ==   \* an accepted matrix, or an unchecked one
  /\ n \in Nodes
  /\ nodes' = [nodes EXCEPT ![n + 1].cim = v, ![n + 1].cimFor = Parents(n)]
  /\ UNCHANGED adj

RejectCim(n) ==   \* a matrix that does not pass validation leaves none
  /\ n \in Nodes
  /\ nodes' = [nodes EXCEPT ![n + 1].cim = None, ![n + 1].cimFor = {}]
  /\ UNCHANGED adj

SetTr(n, v) ==
  /\ n \in Nodes
  /\ nodes' = [nodes EXCEPT ![n + 1].tr = v, ![n + 1].trFor = Parents(n)]
  /\ UNCHANGED adj

SetRt(n, v) ==
  /\ n \in Nodes
  /\ nodes' = [nodes EXCEPT ![n + 1].rt = v, ![n + 1].rtFor = Parents(n)]
  /\ UNCHANGED adj

ResetParams(n) ==
  /\ n \in Nodes
  /\ nodes' = [nodes EXCEPT ![n + 1] = Cleared(@)]
  /\ UNCHANGED adj

(* ------------------------------ properties ------------------------------ *)
\* C01
ParentChildInverse == \A p, c \in Nodes : p \in Parents(c) <=> c \in Children(p)
EdgesInRange == Edges \subseteq (Nodes \X Nodes)
NumberingStable ==      \* action property: nodes are only appended, identity kept
  /\ Len(nodes') >= Len(nodes)
  /\ \A i \in 1 .. Len(nodes) : /\ nodes'[i].label = nodes[i].label
                                /\ nodes'[i].card = nodes[i].card

\* C02
ParamsFresh ==
  \A n \in Nodes : LET nd == nodes[n + 1] IN
    /\ nd.cim # None => nd.cimFor = Parents(n)
    /\ nd.tr # None => nd.trFor = Parents(n)
    /\ nd.rt # None => nd.rtFor = Parents(n)

\* no node loses parameters unless its parent set may have changed
OthersKept ==
  \A i \in 1 .. Len(nodes) :
     (Len(nodes') # Len(nodes) \/ adj' # adj) =>
       ( ((i - 1) \notin {e[2] : e \in (UNION adj') \cup Edges}) => nodes'[i] = nodes[i])
=============================================================================
