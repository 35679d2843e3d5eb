----------------------------- MODULE LearnTrace ---------------------------
(* Recorded runs of the structure learners, tests and cache.                 *)
EXTENDS HillClimb, TraceLib
C == INSTANCE Ctpc
H == INSTANCE HypTest

VARIABLES small, big, level
K == INSTANCE Cache
tvars == <<small, big, level, l>>
keep == UNCHANGED <<small, big, level>>
TraceInit == K!CInit /\ l = 1

(* ----------------------------- whole networks ---------------------------- *)
Consistent == /\ Ev.ok                          \* nodes, labels, cardinalities kept
              /\ Len(Ev.pars) = Ev.n /\ Len(Ev.chi) = Ev.n
              /\ \A p, c \in 0 .. (Ev.n - 1) :
                   (p \in ToSet0(At(Ev.pars, c))) <=> (c \in ToSet0(At(Ev.chi, p)))
\* position of another node among the nodes other than i
Pos(i, p) == IF p < i THEN p ELSE p - 1

THc ==
  /\ IsEvent("hc") /\ keep /\ Consistent
  /\ \A i \in 0 .. (Ev.n - 1) :
       LET S0 == ToSet0(At(Ev.pars, i))
           S == {Pos(i, p) : p \in S0}
           r == At(Ev.rank, i)
       IN /\ i \notin S0 /\ S0 \subseteq 0 .. (Ev.n - 1)
          /\ Feasible(r, S, Ev.cap)
          /\ NoTies(r) => LocalOpt(r, Ev.n - 1, S, Ev.cap)

\* the same for a score given by weights: of every parent, and of pairs of them
WScore(w, pairs, S) == SumOver(S, LAMBDA p : At(w, p)) +
  SumSeq([k \in DOMAIN pairs |-> IF pairs[k][1] \in S /\ pairs[k][2] \in S THEN pairs[k][3] ELSE 0])
THcBig ==
  /\ IsEvent("hcbig") /\ keep /\ Consistent
  /\ \A i \in 0 .. (Ev.n - 1) :
       LET S == ToSet0(At(Ev.pars, i))
           others == (0 .. (Ev.n - 1)) \ {i}
           sc(T) == WScore(At(Ev.w, i), At(Ev.pairs, i), T)
           mine == sc(S)
       IN /\ S \subseteq others /\ Within(S, Ev.cap) /\ mine >= 0
          /\ \A p \in S : sc(S \ {p}) <= mine
          /\ \A p \in others \ S : Within(S \cup {p}, Ev.cap) => sc(S \cup {p}) <= mine

TCtpc ==
  /\ IsEvent("ctpc") /\ keep /\ Consistent
  /\ \A i \in 0 .. (Ev.n - 1) :
       LET t == At(Ev.tab, i)
           indep == {<<t[k][1], ToSet0(t[k][2])>> : k \in {j \in DOMAIN t : t[j][3] = 1 /\ t[j][4] = 1}}
       IN ToSet0(At(Ev.pars, i)) = C!Learned(indep, (0 .. (Ev.n - 1)) \ {i})

(* --------------------------------- tests --------------------------------- *)
Allows(verdict) == \/ verdict = "any" /\ Ev.out \in {0, 1}
                   \/ verdict = "ind" /\ Ev.out = 1
                   \/ verdict = "dep" /\ Ev.out = 0
TChi == /\ IsEvent("chi") /\ keep
        /\ Allows(H!ChiSame(At(Ev.m1, Ev.i), At(Ev.m2, Ev.j), Ev.s, Ev.a))
TF == /\ IsEvent("f") /\ keep
      /\ Allows(H!FSame(At(Ev.r1, Ev.i), At(Ev.r2, Ev.j), At(Ev.q1, Ev.i), At(Ev.q2, Ev.j), Ev.a))
BigConfs == 0 .. (Configs(Ev.cards, ToSet0(Ev.sep) \cup {Ev.p}) - 1)
Small(u) == H!ConfIn(Ev.cards, ToSet0(Ev.sep), Ev.p, u)
TChiCall == /\ IsEvent("chicall") /\ keep
            /\ Allows(H!Both({H!ChiSame(At(Ev.m1, Small(u)), At(Ev.m2, u), Ev.s, Ev.a) : u \in BigConfs}))
TFCall == /\ IsEvent("fcall") /\ keep
          /\ Allows(H!Both({H!FSame(At(Ev.r1, Small(u)), At(Ev.r2, u), At(Ev.q1, Small(u)), At(Ev.q2, u), Ev.a)
                            : u \in BigConfs}))

(* --------------------------------- cache --------------------------------- *)
TCache == IsEvent("cache") /\ small' = {} /\ big' = {} /\ level' = 0
\* the answer is right, and the tables evolve as specified
TReq == /\ IsEvent("req")
        /\ K!Request(Ev.node, ToSet0(Ev.ps)) /\ Ev.got = K!Result(Ev.node, ToSet0(Ev.ps))
        /\ Ev.got = K!Token(Ev.node, ToSet0(Ev.ps))
TWide == /\ IsEvent("wide") /\ keep
         /\ Ev.got = <<Ev.node>> \o Ev.ps
         /\ Ev.label = "n" \o ToString(Ev.node)
TTest == IsEvent("test") /\ keep /\ Ev.used = Ev.fresh
TDirect == IsEvent("direct") /\ keep /\ Ev.eq

(* ------------------------------ parallelism ------------------------------ *)
\* runs: the same job with different numbers of workers and delays; solo: part
\* by part, each with everything else changed (or one after the other)
TPar == /\ IsEvent("par") /\ keep /\ Ev.fine
        /\ \A i \in DOMAIN Ev.runs : Ev.runs[i] = Ev.runs[1]
        /\ Ev.solo = Ev.runs[1]

TraceNext == THc \/ THcBig \/ TWide \/ TCtpc \/ TChi \/ TF \/ TChiCall \/ TFCall \/ TCache \/ TReq \/ TTest \/ TDirect \/ TPar
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
