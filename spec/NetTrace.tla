----------------------------- MODULE NetTrace -----------------------------
(* Traces of CtbnNetwork operations against Net.  Every event carries what   *)
(* every public query answers after the operation.                           *)
EXTENDS Net, TraceLib

CONSTANTS CheckStruct, CheckParams, CheckIndex

tvars == <<nodes, adj, l>>

TraceInit == NetInit /\ l = 1

ObsOK(o) ==
  /\ ~Has(o, "panic")
  /\ CheckStruct =>
       /\ o.n = Len(nodes')
       /\ o.idx = [i \in 1 .. Len(nodes') |-> i - 1]
       /\ o.labels = [i \in 1 .. Len(nodes') |-> nodes'[i].label]
       /\ o.cards = [i \in 1 .. Len(nodes') |-> nodes'[i].card]
       \* once the structure exists the queries answer; before, they answer
       \* nothing or "no edges"
       /\ adj' # {} => o.known
       /\ o.known => \A i \in 1 .. Len(nodes') :
            /\ o.par[i] = Asc({e[1] : e \in {x \in UNION adj' : x[2] = i - 1}})
            /\ o.chi[i] = Asc({e[2] : e \in {x \in UNION adj' : x[1] = i - 1}})
       /\ o.adj.some => /\ ToSet0(o.adj.edges) = UNION adj'
                        /\ o.adj.shape = <<Len(nodes'), Len(nodes')>>
       /\ adj' # {} => o.adj.some
  /\ CheckParams =>
       /\ o.cim = [i \in 1 .. Len(nodes') |-> nodes'[i].cim]
       /\ o.tr = [i \in 1 .. Len(nodes') |-> nodes'[i].tr]
       /\ o.rt = [i \in 1 .. Len(nodes') |-> nodes'[i].rt]

TNew == IsEvent("new") /\ nodes' = <<>> /\ adj' = {}

TAddNode == IsEvent("addnode") /\ AddNode(Ev.label, Ev.card)
            /\ (CheckStruct => Ev.ret = Len(nodes)) /\ ObsOK(Ev.obs)
TInit == IsEvent("init") /\ InitStructure /\ Ev.ok /\ ObsOK(Ev.obs)
TAddEdge == IsEvent("addedge") /\ AddEdge(Ev.p, Ev.c) /\ Ev.ok /\ ObsOK(Ev.obs)
\* a graph drawn or learned: the edges are read from the parent sets; everything else
\* the queries answer has to agree with them
TReplace == /\ IsEvent("replace") /\ Ev.ok /\ ReplaceStructure(ToSet0(Ev.edges)) /\ ObsOK(Ev.obs)
            /\ CheckStruct => \A e \in ToSet0(Ev.edges) : e[1] # e[2]
TGenParams == /\ IsEvent("genparams") /\ Ev.ok /\ GenParams(Ev.v) /\ ObsOK(Ev.obs)
              /\ CheckParams => \A i \in 1 .. N : Ev.v[i] # 0
TSetCim == IsEvent("setcim") /\ SetCim(Ev.n, Ev.v)
           /\ (CheckParams => Ev.ok) /\ ObsOK(Ev.obs)
TRejectCim == IsEvent("rejectcim") /\ RejectCim(Ev.n)
           /\ (CheckParams => Ev.ok) /\ ObsOK(Ev.obs)
TSetTr == IsEvent("settr") /\ SetTr(Ev.n, Ev.v) /\ ObsOK(Ev.obs)
TSetRt == IsEvent("setrt") /\ SetRt(Ev.n, Ev.v) /\ ObsOK(Ev.obs)
TReset == IsEvent("resetparams") /\ ResetParams(Ev.n) /\ Ev.ok /\ ObsOK(Ev.obs)

(* ---- C03: indices; the network is given by its cardinalities and edges -- *)
TNetIs == /\ IsEvent("netis")
          /\ nodes' = [i \in 1 .. Len(Ev.cards) |-> Blank("", Ev.cards[i])]
          /\ adj' = {ToSet0(Ev.edges)}

TIndex ==
  /\ IsEvent("index")
  /\ UNCHANGED <<nodes, adj>>
  /\ CheckIndex =>
     /\ \A i \in Nodes : At(Ev.own, i) = Index(Cards, Parents(i), Ev.st)
     /\ \A i \in Nodes : At(Ev.expl, i) = At(Ev.own, i)
     /\ \A i \in 1 .. Len(Ev.cus) : Ev.cus[i].i = Index(Cards, ToSet0(Ev.cus[i].s), Ev.st)
     /\ Ev.full = Ev.k
     /\ Ev.full = Index(Cards, Nodes, Ev.st)
     /\ Ev.back = Ev.st
     /\ Ev.back = Decode(Cards, Ev.k)

\* the same where the numbers do not fit TLC's integers: remainders modulo primes
Primes == <<32749, 32719, 32717>>
IndexMod(cards, P, st, m) ==
  FoldLeft(LAMBDA a, i : IF i - 1 \notin P THEN a
             ELSE <<(a[1] + (st[i] % m) * a[2]) % m, (a[2] * (cards[i] % m)) % m>>,
           <<0, 1>>, [i \in DOMAIN cards |-> i])[1]
BigIndexOK(o, cs) ==
  /\ \A k \in 1 .. 3 :
     /\ \A i \in Nodes : LET P == TLCEval(Parents(i)) IN At(o.own, i)[k] = IndexMod(cs, P, o.st, Primes[k])
     /\ o.i[k] = LET P == ToSet0(o.s) IN IndexMod(cs, P, o.st, Primes[k])
  /\ o.back = o.st
TBigIndex ==
  /\ IsEvent("bigindex")
  /\ UNCHANGED <<nodes, adj>>
  /\ CheckIndex => BigIndexOK(Ev, Cards) = TRUE

\* the configurations of the parents are numbered 0 .. product-1, each once
TCover ==
  /\ IsEvent("cover")
  /\ UNCHANGED <<nodes, adj>>
  /\ CheckIndex => Ev.seen = [i \in 1 .. Configs(Cards, Parents(Ev.n)) |-> i - 1]

\* hundreds of nodes, built by nothing but AddNode and AddEdge
TMany ==
  /\ IsEvent("many")
  /\ UNCHANGED <<nodes, adj>>
  /\ CheckStruct =>
     LET E == ToSet0(Ev.edges)
         ids == [i \in 1 .. Len(Ev.cards) |-> i - 1]
     IN /\ Ev.n = Len(Ev.cards) /\ Ev.held = Ev.cards
        /\ Ev.rets = ids /\ Ev.idx = ids /\ Ev.labels = ids
        /\ ToSet0(Ev.par) = E /\ ToSet0(Ev.chi) = E
        /\ Len(Ev.par) = Cardinality(E) /\ Len(Ev.chi) = Cardinality(E)

\* hundreds of nodes that all hold parameters, and one change of the structure:
\* per node 0 nothing, 1 what it held before, 2 something else
TManyParams ==
  /\ IsEvent("manyp")
  /\ UNCHANGED <<nodes, adj>>
  /\ CheckParams =>
     LET before == {e[2] : e \in ToSet0(Ev.edges)}
         lost == CASE Ev.op = "addedge" -> {Ev.c}
                   [] Ev.op \in {"init", "addnode"} -> before
                   [] Ev.op = "replace" -> before \cup {e[2] : e \in ToSet0(Ev.now)}
         n == IF Ev.op = "addnode" THEN Ev.n + 1 ELSE Ev.n
         want == TLCEval([i \in 1 .. n |-> IF i > Ev.n \/ (i - 1) \in lost THEN 0 ELSE 1])
     IN Ev.cim = want /\ Ev.tr = want /\ Ev.rt = want

TraceNext == TMany \/ TManyParams \/ TNew \/ TReplace \/ TGenParams \/ TAddNode \/ TInit \/ TAddEdge \/ TSetCim \/ TRejectCim
             \/ TSetTr \/ TSetRt \/ TReset \/ TNetIs \/ TIndex \/ TBigIndex \/ TCover

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
