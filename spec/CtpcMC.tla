------------------------------- MODULE CtpcMC -----------------------------
(* The learner as a process: at every level it looks at candidate/separating *)
(* set pairs in any order, dropping candidates as it goes, with separating   *)
(* sets drawn from the candidates present when the level began.  For every   *)
(* outcome of the tests the result is Learned, whatever the order.           *)
EXTENDS Ctpc

CONSTANTS Cands, Emit      \* number of candidates

VARIABLES indep, start, left, size, todo, done
vars == <<indep, start, left, size, todo, done>>

All == 0 .. (Cands - 1)
Pairs == {<<p, S>> \in All \X SUBSET All : p \notin S}
\* size >= number of candidates never looked at
Init == /\ indep \in SUBSET Pairs
        /\ start = All /\ left = All /\ size = 0 /\ todo = All /\ done = FALSE

Look(p) == /\ ~done /\ p \in todo
           /\ todo' = todo \ {p}
           /\ left' = IF \E S \in SubsetsOf(start \ {p}, size) : <<p, S>> \in indep
                      THEN left \ {p} ELSE left
           /\ UNCHANGED <<indep, start, size, done>>
NextLevel == /\ ~done /\ todo = {}
             /\ IF size + 1 < Cardinality(left)
                THEN size' = size + 1 /\ start' = left /\ todo' = left /\ UNCHANGED done
                ELSE done' = TRUE /\ UNCHANGED <<size, start, todo>>
             /\ UNCHANGED <<indep, left>>
Next == (\E p \in All : Look(p)) \/ NextLevel
Spec == Init /\ [][Next]_vars

SameResult == done => left = Learned(indep, All)
\* a candidate that is left was never found independent at any level looked at
Kept == done => \A p \in left : \A k \in 0 .. size :
          k < Cardinality(start) => \A S \in SubsetsOf(left \ {p}, k) : <<p, S>> \notin indep
DepJson == SetToSeq({<<x[1], Asc(x[2])>> : x \in Pairs \ indep})
EmitTest == ~Emit \/ done \/ left # All \/ size # 0 \/ todo # All
            \/ PrintT("@@" \o ToJson([n |-> Cands + 1, dep |-> DepJson]))
=============================================================================
