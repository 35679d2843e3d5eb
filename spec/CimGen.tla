------------------------------ MODULE CimGen ------------------------------
(* All ways one row of an otherwise valid array can look (entries from a     *)
(* small alphabet around the boundaries), for every position of the row.     *)
(* Each array is one state; the verdict is printed with it.                  *)
EXTENDS Cim, Json

CONSTANTS Card, U, Full

VARIABLES row, u, x
vars == <<row, u, x, held>>

\* [t, a, b] with a in units of the scale and b in units of 1e-10
AlphabetFull == {<<0,-2,0>>, <<0,-1,0>>, <<0,0,-60>>, <<0,0,0>>, <<0,0,60>>, <<0,1,0>>, <<0,1,-60>>,
                 <<0,1,300>>, <<0,2,0>>, <<1,0,0>>, <<2,0,0>>, <<3,0,0>>}
AlphabetSmall == {<<0,-2,0>>, <<0,-1,0>>, <<0,0,0>>, <<0,1,0>>, <<0,1,60>>, <<1,0,0>>}
Alphabet == IF Full THEN AlphabetFull ELSE AlphabetSmall

Good(y) == [z \in 1 .. Card |-> IF z - 1 = y THEN <<0, 1 - Card, 0>> ELSE <<0, 1, 0>>]
Array == [i \in 1 .. U |-> [y \in 1 .. Card |->
            IF i - 1 = u /\ y - 1 = x THEN row ELSE Good(y - 1)]]

Init == /\ row = <<>> /\ u \in 0 .. (U - 1) /\ x \in 0 .. (Card - 1) /\ held = Nothing
Next == /\ Len(row) < Card
        /\ \E e \in Alphabet : row' = Append(row, e)
        /\ UNCHANGED <<u, x, held>>
Spec == Init /\ [][Next]_vars

EmitTest == Len(row) < Card \/ PrintT("@@" \o ToJson(
   [card |-> Card, arr |-> Array, verdict |-> CimVerdict(Array, Card)]))

\* the verdict depends on the row alone when the others are valid
Local == Len(row) = Card => CimVerdict(Array, Card) = RowVerdict(row, x)
\* a valid row has all the properties a generator row must have
Sound == Len(row) = Card /\ RowVerdict(row, x) = "valid" =>
           /\ NegEntry(row[x + 1])
           /\ \A i \in 1 .. Card : i = x + 1 \/ ~NegEntry(row[i])
           /\ RowA(row) = 0
=============================================================================
