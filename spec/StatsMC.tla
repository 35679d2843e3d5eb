------------------------------ MODULE StatsMC -----------------------------
(* A dataset grown row by row with its statistics kept up incrementally.     *)
(* Every reachable dataset within the bounds is one state; the incremental   *)
(* statistics must equal the definition, and the laws C12 names must hold.   *)
(* Each complete dataset is printed as a test for the library.               *)
EXTENDS Stats

CONSTANTS CardsA, CardsB, MaxRows, MaxTrajs, Dts, Emit

VARIABLES trajs, M, T       \* M, T: statistics of node 1 given node 0
vars == <<trajs, M, T>>

cards == <<CardsA, CardsB>>
States == {<<a, b>> : a \in 0 .. (CardsA - 1), b \in 0 .. (CardsB - 1)}
Rows == SumSeq([i \in DOMAIN trajs |-> Len(trajs[i].t)])

Init == /\ trajs = <<>>
        /\ M = [k \in (0 .. (CardsA - 1)) \X (0 .. (CardsB - 1)) \X (0 .. (CardsB - 1)) |-> 0]
        /\ T = [k \in (0 .. (CardsA - 1)) \X (0 .. (CardsB - 1)) |-> 0]

Begin == /\ Len(trajs) < MaxTrajs /\ Rows < MaxRows
         /\ \E s \in States : trajs' = Append(trajs, [t |-> <<0>>, s |-> <<s>>])
         /\ UNCHANGED <<M, T>>

Extend == /\ trajs # <<>> /\ Rows < MaxRows
          /\ \E s \in States, d \in Dts :
               LET n == Len(trajs)
                   tr == trajs[n]
                   k == Len(tr.t)
                   old == tr.s[k]
               IN /\ trajs' = [trajs EXCEPT ![n] = [t |-> Append(tr.t, tr.t[k] + d), s |-> Append(tr.s, s)]]
                  /\ M' = IF old[2] = s[2] THEN M ELSE [M EXCEPT ![<<old[1], old[2], s[2]>>] = @ + 1]
                  /\ T' = [T EXCEPT ![<<old[1], old[2]>>] = @ + d]
Next == Begin \/ Extend
Spec == Init /\ [][Next]_vars

ints == AllIntervals(trajs)
CellsOf(ps, node) == Cells(cards, ints, node, ps)

Incremental ==
  LET cs == CellsOf(<<0>>, 1) IN
  /\ \A k \in DOMAIN M : M[k] = Count(cs, k[1], k[2], k[3])
  /\ \A k \in DOMAIN T : T[k] = Time(cs, k[1], k[2])

Total == LET D == {<<i, k>> : i \in DOMAIN trajs, k \in 1 .. MaxRows}
         IN SumOver({p \in D : p[2] < Len(trajs[p[1]].t)},
                    LAMBDA p : trajs[p[1]].t[p[2] + 1] - trajs[p[1]].t[p[2]])
Laws ==
  LET with == CellsOf(<<0>>, 1)
      none == CellsOf(<<>>, 1)
  IN \* times add up to the observed time, whatever the parents
     /\ SumOver(DOMAIN T, LAMBDA k : Time(with, k[1], k[2])) = Total
     \* summing over the parent gives the statistics without it
     /\ \A x, y \in 0 .. (CardsB - 1) :
          SumOver(0 .. (CardsA - 1), LAMBDA u : Count(with, u, x, y)) = Count(none, 0, x, y)
     /\ \A x \in 0 .. (CardsB - 1) :
          SumOver(0 .. (CardsA - 1), LAMBDA u : Time(with, u, x)) = Time(none, 0, x)
     \* counts add up to the number of changes of the node
     /\ SumOver(DOMAIN M, LAMBDA k : M[k]) = Cardinality({k \in DOMAIN ints : ints[k].a[2] # ints[k].b[2]})
     \* results add over trajectories
     /\ \A k \in DOMAIN M : M[k] = SumOver(DOMAIN trajs,
          LAMBDA i : Count(Cells(cards, Intervals(trajs[i]), 1, <<0>>), k[1], k[2], k[3]))

EmitTest == ~Emit \/ Rows < MaxRows \/ PrintT("@@" \o ToJson([cards |-> cards, trajs |-> trajs]))
=============================================================================
