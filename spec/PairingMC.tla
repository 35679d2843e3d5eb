------------------------------ MODULE PairingMC ---------------------------
(* ConfIn maps the configurations of sep + candidate onto those of sep,    *)
(* each hit exactly once per value of the candidate, whatever the position   *)
(* of the candidate among the separating set.                                *)
EXTENDS HypTest
VARIABLES cards, sep, p
vars == <<cards, sep, p>>
Init == /\ cards \in [1 .. 4 -> 2 .. 4]
        /\ p \in 0 .. 3 /\ sep \in SUBSET ((0 .. 3) \ {p})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Onto == LET U == Configs(cards, sep)
            B == Configs(cards, sep \cup {p})
        IN /\ B = U * At(cards, p)
           /\ \A s \in 0 .. (U - 1) :
                Cardinality({u \in 0 .. (B - 1) : ConfIn(cards, sep, p, u) = s}) = At(cards, p)
\* the closed form the library uses for the position of the candidate
ClosedForm == LET w == FoldSet(LAMBDA x, a : a * At(cards, x), 1, {x \in sep : x < p})
                  B == Configs(cards, sep \cup {p})
              IN \A u \in 0 .. (B - 1) :
                   ConfIn(cards, sep, p, u) = (u % w) + (u \div (w * At(cards, p))) * w
=============================================================================
