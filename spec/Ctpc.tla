-------------------------------- MODULE Ctpc ------------------------------
(* Constraint-based learning of one node's parents (C16).  indep is the set  *)
(* of pairs <<p, S>> for which independence of candidate p given separating  *)
(* set S is accepted (by both tests).                                        *)
EXTENDS Base, Json, FiniteSetsExt

SubsetsOf(X, k) == IF k > Cardinality(X) THEN {} ELSE kSubset(k, X)
\* candidates of C dropped with separating sets of size k
Dropped(indep, C, k) == {p \in C : \E S \in SubsetsOf(C \ {p}, k) : <<p, S>> \in indep}

RECURSIVE Levels(_, _, _)
Levels(indep, C, k) == IF k >= Cardinality(C) THEN C ELSE Levels(indep, C \ Dropped(indep, C, k), k + 1)
Learned(indep, candidates) == Levels(indep, candidates, 0)
=============================================================================
