---------------------------- MODULE SamplerTrace --------------------------
(* Recorded samples, generated datasets and sampling statistics.             *)
EXTENDS Sampler, TraceLib

CONSTANTS CheckForm,   \* C06: shape of trajectories and datasets
          CheckPos,    \* C07: only, and all, positive intensities
          CheckLaw     \* C08: exponential race of the current intensities

VARIABLE given      \* requested initial state, or <<>>
tvars == <<net, cur, sched, given, l>>

NoNet == [cards |-> <<>>, pars |-> <<>>, q |-> <<>>]
TraceInit == net = NoNet /\ cur = <<>> /\ sched = <<>> /\ given = <<>> /\ l = 1
Same == UNCHANGED <<net, cur, sched, given>>

TNet == IsEvent("net") /\ net' = Ev.net /\ cur' = <<>> /\ sched' = <<>> /\ given' = <<>>
TNew == IsEvent("new") /\ given' = Ev.given /\ cur' = <<>> /\ UNCHANGED <<net, sched>>
TReset == IsEvent("reset") /\ cur' = <<>> /\ UNCHANGED <<net, sched, given>>

InDom(st) == /\ Len(st) = NN(net)
             /\ \A i \in Nds(net) : At(st, i) \in 0 .. (At(net.cards, i) - 1)

\* ord: sign of the difference of times (2: not comparable)
First == /\ CheckForm => /\ Ev.zero
                         /\ InDom(Ev.st)
                         /\ given # <<>> => Ev.st = given

\* with two classes of rates: a fast jump happens at once whenever there is one
ClassLaw(i, y) ==
  LET fast == {j \in JumpSet(net, cur) : Rate(net, j[1], cur, j[2]) >= 1000}
  IN IF fast # {} THEN Ev.fast /\ <<i, y>> \in fast ELSE ~Ev.fast

Step ==
  LET d == Diff(cur, Ev.st) IN
  /\ CheckForm => /\ InDom(Ev.st)
                  /\ Ev.ord \in {0, 1}
                  /\ Cardinality(d) = 1
  /\ CheckPos => \A i \in d : <<i, At(Ev.st, i)>> \in JumpSet(net, cur)
  /\ (CheckLaw /\ Has(Ev, "fast")) => \A i \in d : ClassLaw(i, At(Ev.st, i))

TSample == /\ IsEvent("s")
           /\ IF cur = <<>> THEN First ELSE Step
           /\ cur' = Ev.st
           /\ UNCHANGED <<net, sched, given>>

(* ------------------------------- datasets ------------------------------- *)
TrajOK(t) ==
  LET n == Len(t.rows) IN
  /\ n >= 2
  /\ Len(t.ord) = n - 1
  /\ t.zero                                   \* starts at time 0
  /\ t.end                                    \* last time is exactly the end
  /\ t.before                                 \* and only the last one is there
  /\ \A k \in 1 .. n : InDom(t.rows[k])
  /\ \A k \in 1 .. (n - 1) : t.ord[k] \in {0, 1}
  /\ \A k \in 1 .. (n - 2) : Cardinality(Diff(t.rows[k], t.rows[k + 1])) = 1
  /\ t.rows[n] = t.rows[n - 1]

TrajPos(t) ==
  \A k \in 1 .. (Len(t.rows) - 2) : \A i \in Diff(t.rows[k], t.rows[k + 1]) :
     <<i, At(t.rows[k + 1], i)>> \in JumpSet(net, t.rows[k])

TData == /\ IsEvent("data")
         /\ CheckForm => Len(Ev.trajs) = Ev.want /\ \A k \in DOMAIN Ev.trajs : TrajOK(Ev.trajs[k]) = TRUE
         /\ CheckPos => \A k \in DOMAIN Ev.trajs : TrajPos(Ev.trajs[k]) = TRUE
         /\ Same

\* a long trajectory of a process that jumps at a constant total rate; gaps: from the
\* start to the first jump and from the last jump to the end, in thousandths of the
\* mean waiting time (e^-40 to be longer than 40 times the mean)
TLong == /\ IsEvent("long")
         /\ CheckForm => /\ Len(Ev.trajs) = 1 /\ TrajOK(Ev.trajs[1]) = TRUE
                         /\ Abs(Len(Ev.trajs[1].rows) - 2 - Ev.jumps) <= 7 * Isqrt(Ev.jumps) + 25
                         /\ \A k \in 1 .. 2 : Ev.gaps[k] \in 0 .. 40000
         /\ CheckPos => TrajPos(Ev.trajs[1]) = TRUE
         /\ Same

(* K trajectories of a process that jumps at a constant total rate, over one *)
(* half-life: half of them have no jump, and on average 0.6931 jumps are     *)
(* recorded before the end: all of them, and no others.                      *)
TPoisson == /\ IsEvent("poisson")
            /\ (CheckForm \/ CheckLaw) =>
                 /\ Ev.got = Ev.k
                 /\ FreqOk(Ev.zeros, Ev.k, 1, 2)
                 \* trajectories do not depend on each other, nor stays on first states
                 /\ \A k \in 1 .. 4 : FreqOk(Ev.pp[k], Ev.k \div 2, 1, 4)
                 /\ \A k \in 1 .. 4 : FreqOk(Ev.first[k], Ev.k, 1, 4)
                 /\ Abs(Ev.total - (6931 * Ev.k) \div 10000) <= 7 * Isqrt(Ev.k) + 25
            /\ Same

(* ------------------------------ statistics ------------------------------ *)
\* c of the n stays below the median
Half(c, n) == FreqOk(c, n, 1, 2)
\* two stays, each below the median or not
Independent(pp) == \A k \in 1 .. 4 : FreqOk(pp[k], SumSeq(pp), 1, 4)

\* Jumps out of joint state st (of those that came in by moving node prev):
\* n observations, counts per jump, exit times by deciles of Exp(lam).
TStat ==
  /\ IsEvent("stat")
  /\ LET J == JumpSet(net, Ev.st)
         tot == ExitSum(net, Ev.st)
         cnt == {<<j[1], j[2]>> : j \in ToSet0(Ev.jumps)}
         C(i, y) == LET s == {j \in ToSet0(Ev.jumps) : j[1] = i /\ j[2] = y}
                    IN IF s = {} THEN 0 ELSE (CHOOSE j \in s : TRUE)[3]
     IN /\ Ev.lam = tot
        /\ CheckPos => cnt \subseteq J
        /\ CheckPos => \A j \in J : (Ev.n * Rate(net, j[1], Ev.st, j[2])) \div tot >= 60 => C(j[1], j[2]) > 0
        /\ CheckLaw => \A j \in J : FreqOk(C(j[1], j[2]), Ev.n, Rate(net, j[1], Ev.st, j[2]), tot)
        /\ CheckLaw => Ev.bad = 0 /\ \A k \in 1 .. 10 : FreqOk(Ev.dec[k], Ev.n, 1, 10)
        \* where it goes does not depend on how long it stayed, nor stays on each other
        /\ CheckLaw => \A j \in ToSet0(Ev.jumps) : Half(j[4], j[3])
        /\ CheckLaw => Independent(Ev.pp)
  /\ Same

\* joint distribution of the first states when none was requested
TInit == /\ IsEvent("init")
         /\ CheckLaw => /\ Len(Ev.counts) = ProdSeq(Ev.cards)
                        /\ Ev.out = 0
                        /\ \A k \in DOMAIN Ev.counts : FreqOk(Ev.counts[k], Ev.n, 1, Len(Ev.counts))
         /\ Same

\* next states drawn by a node on its own: row of rates of state x
TDraw == /\ IsEvent("draw")
         /\ LET tot == -At(Ev.row, Ev.x)
            IN /\ CheckPos => /\ Ev.out = 0
                              /\ \A y \in DOMAIN Ev.counts : Ev.counts[y] > 0 => Ev.row[y] > 0
                              /\ (~Ev.slack) => \A y \in DOMAIN Ev.counts :
                                    (Ev.row[y] > 0 /\ (Ev.n * Ev.row[y]) \div tot >= 60) => Ev.counts[y] > 0
               /\ (CheckLaw /\ ~Ev.slack) => \A y \in DOMAIN Ev.counts :
                    y = Ev.x + 1 \/ FreqOk(Ev.counts[y], Ev.n, Ev.row[y], tot)
               /\ (CheckLaw /\ ~Ev.slack) => \A y \in DOMAIN Ev.counts : Half(Ev.short[y], Ev.counts[y])
               /\ (CheckLaw /\ ~Ev.slack) => Independent(Ev.pp)
               /\ (CheckLaw /\ ~Ev.slack) => Ev.bad = 0 /\ \A k \in 1 .. 10 : FreqOk(Ev.dec[k], Ev.n, 1, 10)
         /\ Same

\* m million draws of one state, rates in millionths of its exit intensity; tails:
\* times beyond 12, 9 and 6 means (e^-12, e^-9, e^-6, in 10^-9), below 10^-6 and
\* 10^-3 of the mean, beyond 40 means (never)
Tails == <<6144, 123410, 2478752, 1000, 999500>>
Near(c, e) == Abs(c - e) <= 7 * Isqrt(e) + 25
TRare == /\ IsEvent("rare")
         /\ CheckPos => /\ Ev.out = 0
                        /\ \A y \in DOMAIN Ev.counts : /\ Ev.counts[y] > 0 => Ev.row[y] > 0
                                                       /\ Ev.row[y] > 0 /\ Ev.m * Ev.row[y] >= 60 => Ev.counts[y] > 0
         /\ CheckLaw => /\ \A y \in DOMAIN Ev.counts : y = Ev.x + 1 \/ Near(Ev.counts[y], Ev.m * Ev.row[y])
                        /\ \A k \in 1 .. 5 : Near(Ev.tails[k], (Ev.m * Tails[k]) \div 1000)
                        /\ Ev.tails[6] = 0
         /\ Same

\* a trajectory of more than a million jumps, summed up: how many steps move exactly
\* one variable, how many times are in order, jumps per tenth of the time
THuge == /\ IsEvent("huge")
         /\ CheckForm => /\ Ev.got = 1 /\ Ev.rows = Ev.times
                         /\ Near(Ev.rows - 2, Ev.jumps)
                         /\ Ev.dom /\ Ev.one = Ev.rows - 2 /\ Ev.last /\ Ev.ord = Ev.rows - 1
                         /\ Ev.zero /\ Ev.end /\ Ev.before
                         /\ SumSeq(Ev.tenth) = Ev.rows - 2
                         /\ \A k \in 1 .. 10 : Near(Ev.tenth[k], Ev.jumps \div 10)
         /\ Same

\* Sampling the CTMP obtained by amalgamating the network: its states number
\* the joint states of the network.
TCtmp == /\ IsEvent("ctmp")
         /\ CheckPos =>
              /\ ~Has(Ev, "panic")
              /\ \A k \in 1 .. (Len(Ev.path) - 1) :
                   LET a == Decode(net.cards, Ev.path[k])
                       b == Decode(net.cards, Ev.path[k + 1])
                   IN Ev.path[k] # Ev.path[k + 1] /\ AmalgEntry(net, a, b) > 0
              /\ Ev.path[1] = Ev.start
              /\ Len(Ev.path) = Ev.want
         /\ Same

\* one trajectory cut at, before and after its transitions: <<transitions before the end
\* (the first row included), rows, the same as far as it goes?, closed at the end?>>
TCut == /\ IsEvent("cut")
        /\ CheckForm => \A k \in DOMAIN Ev.cuts :
             LET c == Ev.cuts[k] IN c[4] /\ (c[3] => c[2] = c[1] + 1)
        /\ Same

\* stays after a first one 2^k times as long
TLate == /\ IsEvent("late")
         /\ CheckLaw => Ev.zero <= 2 /\ \A k \in 1 .. 10 : FreqOk(Ev.dec[k], Ev.n, 1, 10)
         /\ Same

TraceNext == TCut \/ TLate \/ TNet \/ TNew \/ TReset \/ TSample \/ TData \/ TLong \/ TPoisson \/ TStat \/ TInit \/ TDraw \/ TCtmp \/ TRare \/ THuge
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
