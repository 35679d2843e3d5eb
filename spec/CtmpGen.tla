------------------------------ MODULE CtmpGen -----------------------------
(* Every sequence of at most MaxLen operations on a CTMP.                    *)
EXTENDS Ctmp, Json

CONSTANT MaxLen
VARIABLE hist
vars == <<node, hist>>

Op(name, a) == hist' = Append(hist, [op |-> name, a |-> a])
Nd(c, v) == [label |-> "m", card |-> c, cim |-> v, tr |-> v, rt |-> v]

Init == Init0 /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E c \in {2, 3} :
          \/ (Add(Nd(c, 0)) \/ RefuseAdd) /\ Op("add", c)
          \/ (Add(Nd(c, 1)) \/ RefuseAdd) /\ Op("addwith", c)
     \/ SetCim(1) /\ Op("setcim", 0)
     \/ SetTr(1) /\ Op("settr", 0)
     \/ SetRt(1) /\ Op("setrt", 0)
     \/ Reset /\ Op("reset", 0)
     \/ HasNode /\ \E w \in {0, 1, 2, 3, 5, 7} : RefuseStructure /\ Op("refuse", w)
Spec == Init /\ [][Next]_vars
Kept == [][KeepsNode]_vars
EmitTest == Len(hist') < MaxLen \/ PrintT("@@" \o ToJson([ops |-> hist']))
=============================================================================
