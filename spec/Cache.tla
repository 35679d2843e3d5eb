-------------------------------- MODULE Cache -----------------------------
(* The learner's fit cache (C18): two tables, for parent sets of at most     *)
(* `level` and of exactly `level + 1` nodes; a larger set moves both up.     *)
(* A fit is identified by the token of its node and parent set.              *)
EXTENDS Base, Json

Token(n, S) == n * 4096 + SumOver(S, LAMBDA p : 2 ^ p)

VARIABLES small, big, level     \* sets of <<node, parent set, stored token>>
cvars == <<small, big, level>>

CInit == small = {} /\ big = {} /\ level = 0

Found(t, n, S) == {e \in t : e[1] = n /\ e[2] = S}
\* the tables as they are when (n, S) is looked up
Moved(S) == Cardinality(S) > level + 1
S1(S) == IF Moved(S) THEN big ELSE small
B1(S) == IF Moved(S) THEN {} ELSE big
L1(S) == IF Moved(S) THEN level + 1 ELSE level
Result(n, S) ==
  LET t == IF Cardinality(S) > L1(S) THEN B1(S) ELSE S1(S)
      f == Found(t, n, S)
  IN IF f = {} THEN Token(n, S) ELSE (CHOOSE e \in f : TRUE)[3]
Request(n, S) ==
  /\ level' = L1(S)
  /\ IF Cardinality(S) > L1(S)
     THEN big' = B1(S) \cup {<<n, S, Result(n, S)>>} /\ small' = S1(S)
     ELSE small' = S1(S) \cup {<<n, S, Result(n, S)>>} /\ big' = B1(S)

\* whatever is stored is what fitting directly would give
Transparent == \A e \in small \cup big : e[3] = Token(e[1], e[2])
=============================================================================
