------------------------------ MODULE RewardGen ---------------------------
(* Reward functions built entry by entry from the all-zero one: every choice *)
(* of at most MaxSets entries (with values that make any sum of them         *)
(* recognisable), and for each the reward of every pair of states that       *)
(* differ in at most one variable.  A pair is one action; each is printed.   *)
EXTENDS Reward

CONSTANTS Cards, MaxSets
CardsA == <<2, 3>>
CardsB == <<2, 2, 2>>

VARIABLES rf, sets, asked
vars == <<rf, sets, asked>>

States == [DOMAIN Cards -> 0 .. 2]
Valid(st) == \A i \in DOMAIN Cards : st[i] < Cards[i]
Sts == {st \in States : Valid(st)}

Init == rf = Zero(Cards) /\ sets = <<>> /\ asked = <<>>
Val == 3 ^ (Len(sets) + 1)
SetInst(i, x) == /\ rf' = [rf EXCEPT !.inst[i][x + 1] = Val]
                 /\ sets' = Append(sets, <<i - 1, x, x, Val, 0>>)
SetTrans(i, x, y) == /\ rf' = [rf EXCEPT !.trans[i][x + 1][y + 1] = Val]
                     /\ sets' = Append(sets, <<i - 1, x, y, Val, 1>>)
Build == /\ asked = <<>> /\ Len(sets) < MaxSets
         /\ UNCHANGED asked
         /\ \E i \in DOMAIN Cards : \E x \in 0 .. (Cards[i] - 1) :
              \/ SetInst(i, x)
              \/ \E y \in 0 .. (Cards[i] - 1) : SetTrans(i, x, y)
Ask == /\ asked = <<>>
       /\ UNCHANGED <<rf, sets>>
       /\ \E c, p \in Sts \cup {<<>>} : /\ c # <<>>
                                        /\ p # <<>> => Cardinality(Diff(c, p)) < 2
                                        /\ asked' = <<c, p>>
Next == Build \/ Ask
Spec == Init /\ [][Next]_vars

\* the reward of a state splits over the nodes
Additive == \A st \in Sts : Inst(rf, st) =
  SumSeq([i \in DOMAIN Cards |-> Inst([rf EXCEPT !.inst = [j \in DOMAIN Cards |->
            IF j = i THEN rf.inst[j] ELSE [x \in 1 .. Cards[j] |-> 0]]], st)])
EmitTest == asked = <<>> \/ PrintT("@@" \o ToJson(
  [cards |-> Cards, sets |-> sets, cur |-> asked[1], prev |-> asked[2],
   inst |-> Inst(rf, asked[1]), trans |-> Trans(rf, asked[2], asked[1])]))
=============================================================================
