----------------------------- MODULE Generators ---------------------------
(* Random graphs (C10) and random parameters (C11): what a generated network *)
(* looks like, whatever the network was before.                              *)
EXTENDS Base, TraceLib

VARIABLES cards, edges     \* the network the generator works on
tvars == <<cards, edges, l>>

TraceInit == cards = <<>> /\ edges = {} /\ l = 1
Nodes == 0 .. (Len(cards) - 1)
AllPairs == {e \in Nodes \X Nodes : e[1] # e[2]}
ParentsIn(E, c) == {e[1] : e \in {x \in E : x[2] = c}}

TNet == IsEvent("net") /\ cards' = Ev.cards /\ edges' = ToSet0(Ev.edges)

\* any edge inserted or removed by hand in between
TEdge == IsEvent("edge") /\ edges' = edges \cup {<<Ev.p, Ev.c>>} /\ UNCHANGED cards

\* a new node ends the structure
TAddNode == IsEvent("addnode") /\ cards' = Append(cards, Ev.card) /\ edges' = {}

(* ------------------------------- graphs --------------------------------- *)
TGraph ==
  /\ IsEvent("graph")
  /\ LET E == ToSet0(Ev.edges) IN
     /\ E \subseteq AllPairs                       \* no self loop
     /\ Ev.num = 0 => E = {}
     /\ Ev.num = Ev.den => E = AllPairs
     /\ ToSet0(Ev.cedges) = E                      \* seen from the parents too
     /\ Ev.cards = cards /\ Ev.labels              \* nodes unchanged
     /\ edges' = E
  /\ UNCHANGED cards

\* a graph on hundreds of nodes: the degrees of all nodes
TDegrees ==
  /\ IsEvent("degrees")
  /\ LET n == Len(cards) IN
     /\ Ev.agree /\ Ev.loops = 0 /\ Ev.cards = cards /\ Ev.labels
     /\ Len(Ev.ins) = n /\ Len(Ev.outs) = n
     /\ \A d \in {Ev.ins, Ev.outs} :
          /\ IF Ev.num = 0 \/ Ev.num = Ev.den THEN \A i \in 1 .. n : d[i] * Ev.den = Ev.num * (n - 1)
             ELSE \A i \in 1 .. n : FreqOk(d[i], n - 1, Ev.num, Ev.den)
          /\ FreqOk(SumSeq(d), n * (n - 1), Ev.num, Ev.den)
          \* halves of the nodes, alternating and by position
          /\ \A h \in 1 .. 4 :
               LET S == {i \in 1 .. n : CASE h = 1 -> i % 2 = 0 [] h = 2 -> i <= n \div 2 [] h = 3 -> i > 256 [] h = 4 -> i % 64 = 0}
               IN FreqOk(SumSeq([i \in 1 .. n |-> IF i \in S THEN d[i] ELSE 0]), Cardinality(S) * (n - 1), Ev.num, Ev.den)
  /\ edges' = {} /\ UNCHANGED cards        \* not followed further

\* how often every ordered pair was an edge in n generations
TPairs ==
  /\ IsEvent("pairs")
  /\ \A c \in ToSet0(Ev.cells) : c[1] # c[2] => FreqOk(c[3], Ev.n, Ev.num, Ev.den)
  /\ \A c \in ToSet0(Ev.cells) : c[1] = c[2] => c[3] = 0
  /\ {<<c[1], c[2]>> : c \in ToSet0(Ev.cells)} = Nodes \X Nodes
  \* all pairs together: finer than any single one
  /\ FreqOk(SumSeq([i \in DOMAIN Ev.cells |-> Ev.cells[i][3]]), Ev.n * Cardinality(AllPairs), Ev.num, Ev.den)
  /\ UNCHANGED <<cards, edges>>

\* whole graphs on three nodes: six independent edges of probability num/den;
\* cells: <<number of edges of the graph, observations>> for all 64 graphs
TJoint ==
  /\ IsEvent("joint")
  /\ Len(Ev.cells) = 64
  /\ \A c \in ToSet0(Ev.cells) :
       FreqOk(c[2], Ev.n, (Ev.num ^ c[1]) * ((Ev.den - Ev.num) ^ (6 - c[1])), Ev.den ^ 6)
  /\ SumSeq([i \in DOMAIN Ev.cells |-> Ev.cells[i][2]]) = Ev.n
  /\ UNCHANGED <<cards, edges>>

\* how often two edges agree (both there or both not) in n graphs: the smallest and
\* the largest count over all pairs of edges, and over all pairs of an edge of one
\* graph and an edge of the next. Each is binomial; 8 standard deviations, because
\* there are up to 2 * 10^7 of them
TCooc ==
  /\ IsEvent("cooc")
  /\ LET d2 == Ev.den * Ev.den
         a == Ev.num * Ev.num + (Ev.den - Ev.num) * (Ev.den - Ev.num)    \* of den^2
         var == (((Ev.n * a) \div d2) * (d2 - a)) \div d2
     IN \A k \in 1 .. 4 : Abs(Ev.agree[k] - (Ev.n * a) \div d2) <= 8 * Isqrt(var) + 12
  /\ UNCHANGED <<cards, edges>>

(* ----------------------------- parameters ------------------------------- *)
\* per node: shape, verdict of validation, number of negative or non-finite
\* off-diagonal entries, smallest and largest exit (in millionths of hi)
NodeOK(i) ==
  LET nd == At(Ev.nodes, i)
      u == Configs(cards, ParentsIn(edges, i))
      k == At(cards, i)
  IN /\ nd.shape = <<u, k, k>>
     /\ nd.valid
     /\ nd.neg = 0
     /\ nd.min >= Ev.lo - 2
     /\ nd.max <= 1000000 + 2

TParams ==
  /\ IsEvent("params")
  /\ Len(Ev.nodes) = Len(cards)
  /\ \A i \in Nodes : NodeOK(i)
  /\ ToSet0(Ev.edges) = edges /\ Ev.cards = cards      \* structure unchanged
  /\ UNCHANGED <<cards, edges>>

\* exit intensities by tenths of the interval
TSpread ==
  /\ IsEvent("spread")
  /\ Ev.out = 0
  /\ \A k \in DOMAIN Ev.dec : 20 * (Ev.dec[k] + 12) >= Ev.n /\ 5 * (Ev.dec[k] - 25) <= Ev.n
  /\ UNCHANGED <<cards, edges>>

TraceNext == TNet \/ TEdge \/ TAddNode \/ TGraph \/ TDegrees \/ TPairs \/ TJoint \/ TCooc \/ TParams \/ TSpread
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
