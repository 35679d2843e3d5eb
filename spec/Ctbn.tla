------------------------------- MODULE Ctbn -------------------------------
(* Meaning of a parameterised network.  net is a record                      *)
(*   cards : cardinalities, pars : per node the ascending sequence of its    *)
(*   parents, q : per node, configuration, state: the row of rates           *)
(*   (integers; the diagonal entry is minus the sum of the others).          *)
EXTENDS Base

NN(net) == Len(net.cards)
Nds(net) == 0 .. (NN(net) - 1)
ConfOf(net, i, st) == IndexSeq(net.cards, At(net.pars, i), st)
RowOf(net, i, st) == At(At(At(net.q, i), ConfOf(net, i, st)), At(st, i))
Rate(net, i, st, y) == At(RowOf(net, i, st), y)
Exit(net, i, st) == -At(RowOf(net, i, st), At(st, i))
Total(net) == ProdSeq(net.cards)

Moved(st, i, y) == [st EXCEPT ![i + 1] = y]

\* jumps possible in st: <<node, new value, rate>>
Jumps(net, st) ==
  {<<i, y, Rate(net, i, st, y)>> : i \in Nds(net), y \in 0 .. (Max(ToSet0(net.cards)) - 1)}
JumpSet(net, st) ==
  UNION {{<<i, y>> : y \in {z \in 0 .. (At(net.cards, i) - 1) : z # At(st, i) /\ Rate(net, i, st, z) > 0}}
         : i \in Nds(net)}

\* the amalgamated generator, entry by entry
ExitSum(net, st) == FoldSet(LAMBDA i, a : a + Exit(net, i, st), 0, Nds(net))
AmalgEntry(net, s, t) ==
  LET d == Diff(s, t) IN
  IF d = {} THEN -ExitSum(net, s)
  ELSE IF Cardinality(d) > 1 THEN 0
  ELSE LET i == CHOOSE i \in d : TRUE IN Rate(net, i, s, At(t, i))

\* the non-zero entries of row s, as a set of <<column, value>>, computed from
\* the jumps instead of entry by entry
AmalgRow(net, idx) ==
  LET s == Decode(net.cards, idx)
      place == [i \in 1 .. NN(net) |-> ProdSeq(SubSeq(net.cards, 1, i - 1))]
      out == {<<idx + (j[2] - At(s, j[1])) * At(place, j[1]), Rate(net, j[1], s, j[2])>> : j \in JumpSet(net, s)}
      d == ExitSum(net, s)
  IN IF d = 0 THEN out ELSE out \cup {<<idx, -d>>}
=============================================================================
