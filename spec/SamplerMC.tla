----------------------------- MODULE SamplerMC ----------------------------
(* All small networks, all schedules of draws and firings.                   *)
EXTENDS Sampler

CONSTANTS Shape, Rates, MaxPar

Shape2 == <<2, 3>>
Shape3 == <<2, 2, 2>>
Rates2 == {0, 1, 3}
R13 == {1, 3}

RowsOf(card, x) ==
  {r \in [1 .. card -> Rates \cup {0}] : r[x + 1] = 0 /\ \E y \in 1 .. card : r[y] > 0}
Close(r, x) == [r EXCEPT ![x + 1] = -SumSeq(r)]
Mats(card) == {m \in [1 .. card -> UNION {RowsOf(card, x) : x \in 0 .. (card - 1)}] :
                 \A x \in 1 .. card : m[x] \in RowsOf(card, x - 1)}
Closed(m) == [x \in DOMAIN m |-> Close(m[x], x - 1)]

\* The matrices of a node depend on the configuration through a shift of one
\* random matrix, so that every configuration has its own rates.
ConfMats(card, u, m) == [v \in 1 .. u |-> Closed([x \in DOMAIN m |-> [y \in DOMAIN m[x] |->
                           IF m[x][y] = 0 THEN 0 ELSE m[x][y] + 2 * (v - 1)]])]
SmallSubs(S) == {P \in SUBSET S : Cardinality(P) <= MaxPar}

Init ==
  /\ \E Ps \in [1 .. Len(Shape) -> SUBSET (0 .. (Len(Shape) - 1))],
        Ms \in [1 .. Len(Shape) -> UNION {Mats(c) : c \in ToSet0(Shape)}] :
       /\ \A i \in 1 .. Len(Shape) : /\ Ps[i] \in SmallSubs((0 .. (Len(Shape) - 1)) \ {i - 1})
                                     /\ Ms[i] \in Mats(Shape[i])
       /\ net = [cards |-> Shape,
                 pars |-> [i \in 1 .. Len(Shape) |-> Asc(Ps[i])],
                 q |-> [i \in 1 .. Len(Shape) |-> ConfMats(Shape[i], Configs(Shape, Ps[i]), Ms[i])]]
  /\ cur = [i \in 1 .. Len(Shape) |-> 0]
  /\ sched = [i \in 1 .. Len(Shape) |-> 0]

DrawFirst == \E i \in Nds(net) : Draw(i) /\ \A j \in 0 .. (i - 1) : At(sched, j) # 0
FireAny == \E i \in Nds(net) : \E y \in 0 .. (At(net.cards, i) - 1) : Fire(i, y)
Next == DrawFirst \/ FireAny
Spec == Init /\ [][Next]_svars

OneMoveP == [][OneMove]_svars
NeverStuck == AllScheduled => JumpSet(net, cur) # {}
=============================================================================
