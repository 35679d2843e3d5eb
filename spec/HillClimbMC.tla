---------------------------- MODULE HillClimbMC ---------------------------
(* Climbing by any improving move: ends, and ends in a feasible local        *)
(* optimum, for every ranking without ties and every maximum.  Every pair of *)
(* ranking and maximum is printed as a test for the library.                 *)
EXTENDS HillClimb

CONSTANTS Others, SampleMod      \* with three others only every SampleMod-th ranking

VARIABLES ranks, cap, S
vars == <<ranks, cap, S>>

Sets == 2 ^ Others
Rankings == {f \in [1 .. Sets -> 0 .. (Sets - 1)] : Cardinality({f[i] : i \in 1 .. Sets}) = Sets}

\* k-th permutation of 0 .. m-1 (factorial number system)
RECURSIVE Perm(_, _)
Perm(k, rest) == IF rest = <<>> THEN <<>>
  ELSE LET i == (k % Len(rest)) + 1
       IN <<rest[i]>> \o Perm(k \div Len(rest), SubSeq(rest, 1, i - 1) \o SubSeq(rest, i + 1, Len(rest)))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)

Init == /\ \E k \in {j \in 0 .. (Fact(Sets) - 1) : j % SampleMod = 0} :
             ranks = Perm(k, [i \in 1 .. Sets |-> i - 1])
        /\ cap \in -1 .. Others
        /\ S = {}
Next == \E T \in Neighbour(Others, S, cap) :
          /\ RankOf(ranks, T) > RankOf(ranks, S)
          /\ S' = T /\ UNCHANGED <<ranks, cap>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AlwaysFeasible == Feasible(ranks, S, cap)
StopsAtOptimum == ~ENABLED Next => LocalOpt(ranks, Others, S, cap)
Climbs == [][RankOf(ranks, S') > RankOf(ranks, S)]_vars     \* hence it terminates
EmitTest == S # {} \/ PrintT("@@" \o ToJson([rank |-> ranks, cap |-> cap]))
=============================================================================
