------------------------------ MODULE GuardsMC ----------------------------
(* Every input of the small domains.                                         *)
EXTENDS Guards
VARIABLES what, x
vars == <<what, x>>
Init == what \in Whats /\ x \in Domain(what)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* both verdicts occur for every kind of input
Both == \A w \in Whats : {Accepts(w, y) : y \in Domain(w)} = {TRUE, FALSE}
ASSUME Both
EmitTest == PrintT("@@" \o ToJson([what |-> what, x |-> x]))
=============================================================================
