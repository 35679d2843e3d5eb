----------------------------- MODULE HillClimb ----------------------------
(* Score-based learning of one node's parents (C15).  The other nodes are    *)
(* numbered 0 .. k-1; rank maps every subset of them to the rank of its      *)
(* score.                                                                    *)
EXTENDS Base, Json

MaskOf(S) == SumOver(S, LAMBDA p : 2 ^ p)
\* ranks: sequence indexed by mask
RankOf(ranks, S) == At(ranks, MaskOf(S))
Within(S, cap) == cap < 0 \/ Cardinality(S) <= cap
NoTies(ranks) == Cardinality(ToSet0(ranks)) = Len(ranks)

\* sets that differ from S by one element and respect the maximum
Neighbour(k, S, cap) == {S \ {p} : p \in S} \cup
                        {T \in {S \cup {p} : p \in (0 .. (k - 1)) \ S} : Within(T, cap)}
LocalOpt(ranks, k, S, cap) == \A T \in Neighbour(k, S, cap) : RankOf(ranks, T) <= RankOf(ranks, S)
Feasible(ranks, S, cap) == Within(S, cap) /\ RankOf(ranks, S) >= RankOf(ranks, {})
=============================================================================
