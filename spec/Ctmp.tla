------------------------------- MODULE Ctmp -------------------------------
(* A CTMP: at most one node, and no structure.                               *)
EXTENDS Base

VARIABLE node      \* {} or {record of the node}

None == 0
HasNode == node # {}
The == CHOOSE x \in node : TRUE

Init0 == node = {}

Add(nd) == ~HasNode /\ node' = {nd}
RefuseAdd == HasNode /\ UNCHANGED node
SetCim(v) == HasNode /\ node' = {[The EXCEPT !.cim = v]}
SetTr(v) == HasNode /\ node' = {[The EXCEPT !.tr = v]}
SetRt(v) == HasNode /\ node' = {[The EXCEPT !.rt = v]}
Reset == HasNode /\ node' = {[The EXCEPT !.cim = None, !.tr = None, !.rt = None]}
\* edges, structure initialisation, custom parent sets, node indices other than 0
RefuseStructure == UNCHANGED node

AtMostOne == Cardinality(node) <= 1
KeepsNode == HasNode => (node' # {} /\ LET b == CHOOSE x \in node' : TRUE
                                       IN b.card = The.card /\ b.label = The.label)
=============================================================================
