----------------------------- MODULE StatsTrace ---------------------------
(* Recorded statistics, fits and scores of the library.                      *)
EXTENDS Stats, TraceLib

CONSTANTS CheckStats, CheckFit, CheckScore

VARIABLES cards, edges, unit, e2, ints      \* the dataset and network in use
tvars == <<cards, edges, unit, e2, ints, l>>
keep == UNCHANGED <<cards, edges, unit, e2, ints>>

TraceInit == cards = <<>> /\ edges = {} /\ unit = 1 /\ e2 = 0 /\ ints = <<>> /\ l = 1

TDs == /\ IsEvent("ds") /\ cards' = Ev.cards /\ edges' = ToSet0(Ev.edges) /\ unit' = Ev.unit /\ e2' = Ev.e2
       /\ ints' = AllIntervals(Ev.trajs)

TStats == IsEvent("ss") /\ keep /\ (CheckStats => StatsOK(cards, ints, Ev.node, Ev.ps, Ev))

\* the parent set a fit has to use
UsedPs == IF Ev.given THEN Ev.ps ELSE Asc({e[1] : e \in {x \in edges : x[2] = Ev.node}})

TFit ==
  /\ IsEvent("fit") /\ keep
  /\ CheckFit =>       \* intensities are recorded per 2^e2 of time
     LET ps == UsedPs
         U == Configs(cards, ToSet0(ps))
         c == At(cards, Ev.node)
     IN /\ StatsOK(cards, ints, Ev.node, ps, Ev)      \* the statistics it carries
        /\ Ev.qshape = <<U, c, c>>
        /\ Ev.label = Ev.label0 /\ Ev.card = c /\ Ev.netok
        /\ \A u \in 0 .. (U - 1) : \A x \in 0 .. (c - 1) :
             LET t == TOf(Ev, u, x) IN
             IF Ev.kind = "mle"
             THEN t > 0 => RowOK(LAMBDA y : MleNum(MOf(Ev, u, x, y), unit), MleDen(t),
                                 Ev.q[u + 1][x + 1], x)
             ELSE BayesDen(t, U, Ev.tau) > 0
                    => RowOK(LAMBDA y : BayesNum(MOf(Ev, u, x, y), U, Ev.alpha, unit),
                             BayesDen(t, U, Ev.tau), Ev.q[u + 1][x + 1], x)

TScore ==
  /\ IsEvent("score") /\ keep
  /\ CheckScore =>
     LET cells == Cells(cards, ints, Ev.node, Ev.ps)
         U == Configs(cards, ToSet0(Ev.ps))
         c == At(cards, Ev.node)
         r == [m |-> SetToSeq({<<k[1], k[2], k[3], Count(cells, k[1], k[2], k[3])>> : k \in Moves(cells)}),
               t |-> SetToSeq({<<k[1], k[2], Time(cells, k[1], k[2])>> : k \in Stays(cells)})]
         ll == ScoreU(r, U, c, Ev.alpha, Ev.tau, unit, e2)
         want == IF Ev.kind = "ll" THEN ll ELSE FSub(ll, PenaltyU(U, c, Len(ints)))
     IN /\ Len(Ev.v) = 4
        \* a micro plus the rounding of the logarithms added up
        /\ FNear(FMul(U, Ev.v), want, FAdd(<<0, 0, 1, 0>>, Nano(6 * U * (Len(ints) + Ev.alpha + 20))))

TraceNext == TDs \/ TStats \/ TFit \/ TScore
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
