----------------------------- MODULE CtmpTrace ----------------------------
EXTENDS Ctmp, TraceLib

tvars == <<node, l>>
TraceInit == Init0 /\ l = 1

ObsOK(o) ==
  IF node' = {} THEN o.n = 0 /\ o.idx = <<>>
  ELSE LET d == CHOOSE x \in node' : TRUE IN
    /\ o.n = 1 /\ o.idx = <<0>>
    /\ o.label = d.label /\ o.card = d.card
    /\ o.cim = d.cim /\ o.tr = d.tr /\ o.rt = d.rt
    /\ o.par = <<>> /\ o.chi = <<>>
    \* its own state is its configuration index
    /\ o.ix = [i \in 1 .. d.card |-> i - 1]

Rec(e) == [label |-> e.label, card |-> e.card, cim |-> e.cim, tr |-> e.tr, rt |-> e.rt]

TNew == IsEvent("new") /\ node' = {}
TAdd == IsEvent("add") /\ Add(Rec(Ev)) /\ Ev.ret = 0 /\ ObsOK(Ev.obs)
TAddRefused == IsEvent("add") /\ RefuseAdd /\ Ev.ret = -1 /\ ObsOK(Ev.obs)
TSetCim == IsEvent("setcim") /\ SetCim(Ev.v) /\ Ev.ok /\ ObsOK(Ev.obs)
TSetTr == IsEvent("settr") /\ SetTr(Ev.v) /\ ObsOK(Ev.obs)
TSetRt == IsEvent("setrt") /\ SetRt(Ev.v) /\ ObsOK(Ev.obs)
TReset == IsEvent("resetparams") /\ Reset /\ ObsOK(Ev.obs)
TRefuse == IsEvent("refuse") /\ RefuseStructure /\ Ev.refused /\ ObsOK(Ev.obs)

TraceNext == TNew \/ TAdd \/ TAddRefused \/ TSetCim \/ TSetTr \/ TSetRt \/ TReset \/ TRefuse
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
