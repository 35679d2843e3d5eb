----------------------------- MODULE CimTrace -----------------------------
(* Histories of checked and unchecked settings of one node's intensities.    *)
EXTENDS Cim, TraceLib

tvars == <<held, l>>
TraceInit == held = Nothing /\ l = 1

V == CimVerdict(Ev.arr, Ev.card)
After == Ev.tok = held'.tok /\ Ev.validate \in Answers(held')

TNew == IsEvent("new") /\ held' = Nothing
TSetOk == IsEvent("set") /\ Ev.out = "ok" /\ SetOk(Ev.id, V) /\ After
TSetRejected == IsEvent("set") /\ Ev.out = "invalid" /\ SetRejected(V) /\ After
TUnchecked == IsEvent("unchecked") /\ SetUnchecked(Ev.id, V) /\ After
TReset == IsEvent("reset") /\ ResetHolder /\ After

TraceNext == TNew \/ TSetOk \/ TSetRejected \/ TUnchecked \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
