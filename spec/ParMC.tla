-------------------------------- MODULE ParMC -----------------------------
(* Learning one parent set per node with several workers (C24): a worker     *)
(* takes a node, asks for a few fits through its own cache, decides, and     *)
(* publishes; once all have published, edges are inserted in the order of    *)
(* publication.  Whatever the interleaving, the network is the one obtained  *)
(* node after node.                                                          *)
EXTENDS Base
CONSTANTS N, W
Nodes == 0 .. (N - 1)
Workers == 1 .. W
\* an arbitrary outcome per node that depends on all of its fits
Fit(n, step) == (7 * n + 3 * step) % 5
Decide(n, seen) == {p \in Nodes \ {n} : (seen[1] + seen[2] * (p + 1)) % 2 = 0}
Steps == 2

VARIABLES todo, busy, seen, published, edges
vars == <<todo, busy, seen, published, edges>>
Idle == N
Init == /\ todo = Nodes /\ busy = [w \in Workers |-> Idle]
        /\ seen = [w \in Workers |-> <<>>] /\ published = <<>> /\ edges = {}
Take(w) == /\ busy[w] = Idle
           /\ \E n \in todo : /\ todo' = todo \ {n}
                              /\ busy' = [busy EXCEPT ![w] = n]
           /\ seen' = [seen EXCEPT ![w] = <<>>]
           /\ UNCHANGED <<published, edges>>
Work(w) == /\ busy[w] # Idle /\ Len(seen[w]) < Steps
           /\ seen' = [seen EXCEPT ![w] = Append(@, Fit(busy[w], Len(@) + 1))]
           /\ UNCHANGED <<todo, busy, published, edges>>
Publish(w) == /\ busy[w] # Idle /\ Len(seen[w]) = Steps
              /\ published' = Append(published, <<busy[w], Decide(busy[w], seen[w])>>)
              /\ busy' = [busy EXCEPT ![w] = Idle]
              /\ UNCHANGED <<todo, seen, edges>>
Insert == /\ Len(published) = N /\ edges = {}
          /\ edges' = UNION {{<<p, published[i][1]>> : p \in published[i][2]} : i \in DOMAIN published} \cup {<<"done">>}
          /\ UNCHANGED <<todo, busy, seen, published>>
Next == Insert \/ \E w \in Workers : Take(w) \/ Work(w) \/ Publish(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sequential == UNION {{<<p, n>> : p \in Decide(n, [k \in 1 .. Steps |-> Fit(n, k)])} : n \in Nodes}
Same == edges # {} => edges \ {<<"done">>} = Sequential
Once == \A i, j \in DOMAIN published : published[i][1] = published[j][1] => i = j
Finishes == <>(edges # {})
=============================================================================
