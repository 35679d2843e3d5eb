------------------------------ MODULE StreamsMC ---------------------------
(* Interleavings of the creation and use of components.  Here the output is  *)
(* its own key: the operation sequences that can be told apart.  Emitted     *)
(* tests end with a use and use every component.                             *)
EXTENDS Streams
CONSTANTS MaxLen, MaxSlots, Who, Args, Seeds
VARIABLE hist
vars == <<comp, memo, hist>>
Init == SInit /\ hist = <<>>
Slots == DOMAIN comp
Op(o) == hist' = Append(hist, o)
NoReset(slot) == LET h == comp[slot].hist IN IF h = <<>> THEN TRUE ELSE h[Len(h)] # 9
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ /\ Cardinality(Slots) < MaxSlots
        /\ \E kind \in Who, seed \in Seeds, inp \in {0, 1} :
             LET s == Cardinality(Slots) IN
             /\ s > 0 => comp[0].kind = kind /\ inp \in {comp[0].inp, 0}
             /\ New(s, kind, inp, seed)
             /\ Op([op |-> "new", slot |-> s, kind |-> kind, inp |-> inp, seed |-> seed, arg |-> 0])
     \/ \E s \in Slots : NoReset(s) /\ Reset(s) /\ Op([op |-> "reset", slot |-> s, kind |-> "", inp |-> 0, seed |-> 0, arg |-> 0])
     \/ \E s \in Slots, a \in Args :
          /\ comp[s].kind = "sampler" => a = 0
          /\ Use(s, a, Key(s, a), {Key(s, a)})
          /\ Op([op |-> "use", slot |-> s, kind |-> "", inp |-> 0, seed |-> 0, arg |-> a])
Spec == Init /\ [][Next]_vars
\* an equal key is always allowed again, and different sources never share an output
Sound == \A x, y \in DOMAIN memo : memo[x] = memo[y] => x = y
Interesting == /\ Len(hist) = MaxLen /\ hist[MaxLen].op = "use"
               /\ \A s \in Slots : comp[s].uses > 0
EmitTest == ~Interesting \/ PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
