----------------------------- MODULE IndexMC ------------------------------
(* The configuration index of Base, checked for every small network: the     *)
(* mixed-radix index is a bijection onto 0 .. product-1 that depends on the  *)
(* parents only, and Decode inverts the index of the full state.             *)
EXTENDS Base

CONSTANTS MaxN, MaxCard

VARIABLES cards, P
vars == <<cards, P>>

Init == cards = <<>> /\ P = {}
Grow == /\ Len(cards) < MaxN
        /\ \E c \in 2 .. MaxCard, b \in BOOLEAN :
             /\ cards' = Append(cards, c)
             /\ P' = IF b THEN P \cup {Len(cards)} ELSE P
Spec == Init /\ [][Grow]_vars

AllStates == {Decode(cards, i) : i \in 0 .. (ProdSeq(cards) - 1)}
Agree(s, t) == \A p \in P : At(s, p) = At(t, p)

Onto == {Index(cards, P, s) : s \in AllStates} = 0 .. (Configs(cards, P) - 1)
OnlyParents == \A s, t \in AllStates : (Index(cards, P, s) = Index(cards, P, t)) <=> Agree(s, t)
Inverse2 == \A i \in 0 .. (ProdSeq(cards) - 1) :
              Index(cards, AllNodes(cards), Decode(cards, i)) = i
SmallestLeast == P # {} => LET p == Min(P) IN
   \A s \in AllStates : Index(cards, P, s) % At(cards, p) = At(s, p)
SeqSame == \A s \in AllStates : IndexSeq(cards, Asc(P), s) = Index(cards, P, s)
=============================================================================
