------------------------------ MODULE AmalgMC -----------------------------
(* All networks with the given cardinalities and rates from a small set:     *)
(* the amalgamated generator is a generator, and is the dynamics of the net. *)
EXTENDS Ctbn

CONSTANTS Shape,     \* sequence of cardinalities
          Rates      \* set of rates (may contain 0)

Shape22 == <<2, 2>>
Shape23 == <<2, 3>>
Shape222 == <<2, 2, 2>>
Rates12 == {1, 2}
Rates01 == {0, 1}
Rates1 == {1}

VARIABLES net, phase
vars == <<net, phase>>

Rows(card, x) ==     \* all rows of a node in state x
  {r \in [1 .. card -> Rates \cup {-1}] : r[x + 1] = -1 /\ \E y \in 1 .. card : r[y] > 0 /\ \A z \in 1 .. card : z # x + 1 => r[z] # -1}
Close(r, x) == [r EXCEPT ![x + 1] = -(SumSeq([i \in DOMAIN r |-> IF i = x + 1 THEN 0 ELSE r[i]]))]
Mats(card) == {m \in [1 .. card -> UNION {Rows(card, x) : x \in 0 .. (card - 1)}] :
                 \A x \in 1 .. card : m[x] \in Rows(card, x - 1)}
Closed(m) == [x \in DOMAIN m |-> Close(m[x], x - 1)]

Init == /\ net = [cards |-> Shape, pars |-> <<>>, q |-> <<>>] /\ phase = 0
\* choose the parents of one node after the other, then its matrices
Next ==
  /\ phase < Len(Shape)
  /\ \E P \in SUBSET ((0 .. (Len(Shape) - 1)) \ {phase}) :
       \E f \in [1 .. Configs(Shape, P) -> Mats(At(Shape, phase))] :
         net' = [net EXCEPT !.pars = Append(@, Asc(P)),
                            !.q = Append(@, [u \in DOMAIN f |-> Closed(f[u])])]
  /\ phase' = phase + 1
Spec == Init /\ [][Next]_vars

S == 0 .. (Total(net) - 1)
St(i) == Decode(net.cards, i)
Done == phase = Len(Shape)

RowSums == Done => \A s \in S : SumSeq([t \in 1 .. Total(net) |-> AmalgEntry(net, St(s), St(t - 1))]) = 0
OffDiag == Done => \A s, t \in S : s # t => AmalgEntry(net, St(s), St(t)) >= 0
OneChange == Done => \A s, t \in S : AmalgEntry(net, St(s), St(t)) # 0 => Cardinality(Diff(St(s), St(t))) <= 1
\* a transition of the amalgamated process is a jump of the network and back
Dynamics == Done => \A s \in S :
   {<<t, AmalgEntry(net, St(s), St(t))>> : t \in {t \in S : AmalgEntry(net, St(s), St(t)) # 0}} = AmalgRow(net, s)
=============================================================================
