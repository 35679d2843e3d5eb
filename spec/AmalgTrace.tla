---------------------------- MODULE AmalgTrace ----------------------------
(* Recorded amalgamations against Ctbn.                                      *)
EXTENDS Ctbn, TraceLib

TraceInit == l = 1

\* entries of row i as pairs, however they are listed
TAmalg ==
  /\ IsEvent("amalg")
  /\ LET net == Ev.net
         T == Total(net)
     IN /\ Ev.nodes = 1
        /\ Ev.card = T
        /\ Ev.shape = <<1, T, T>>
        /\ Ev.valid
        /\ Ev.same                    \* the source network is left unchanged
        /\ Len(Ev.rows) = T
        /\ \A s \in 0 .. (T - 1) : ToSet0(At(Ev.rows, s)) = AmalgRow(net, s)
        \* small ones also entry by entry, by the definition
        /\ T <= 12 => \A s, t \in 0 .. (T - 1) :
             LET v == AmalgEntry(net, Decode(net.cards, s), Decode(net.cards, t))
             IN IF v = 0 THEN \A e \in ToSet0(At(Ev.rows, s)) : e[1] # t
                ELSE <<t, v>> \in ToSet0(At(Ev.rows, s))

\* rates that are no integers: every off-diagonal entry is, bit by bit, the rate of the
\* node that moves ("0" and the like are zero rates); the diagonal is minus the row
\* sum (dev: their sum in units of 10^-12, at most 1.5 * 10^-8)
TReals ==
  /\ IsEvent("reals")
  /\ LET T == ProdSeq(Ev.cards)
         N == Len(Ev.cards)
         place == [i \in 1 .. N |-> ProdSeq(SubSeq(Ev.cards, 1, i - 1))]
     IN /\ Ev.nodes = 1 /\ Ev.card = T /\ Ev.shape = <<1, T, T>> /\ Ev.valid /\ Ev.same
        /\ Len(Ev.rows) = T
        /\ \A s \in 0 .. (T - 1) :
             LET st == Decode(Ev.cards, s)
                 row(i) == At(At(At(Ev.q, i), IndexSeq(Ev.cards, At(Ev.pars, i), st)), At(st, i))
                 moves(i) == {<<s + (y - At(st, i)) * At(place, i), At(row(i), y)>> :
                               y \in (0 .. (At(Ev.cards, i) - 1)) \ {At(st, i)}}
             IN /\ ToSet0(At(Ev.rows, s)) = {e \in UNION {moves(i) : i \in 0 .. (N - 1)} : e[2] # "0"}
                /\ Len(At(Ev.rows, s)) = Cardinality(ToSet0(At(Ev.rows, s)))
                /\ Abs(At(Ev.dev, s)) <= 15000

TraceSpec == TraceInit /\ [][TAmalg \/ TReals]_l
=============================================================================
