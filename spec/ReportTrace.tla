----------------------------- MODULE ReportTrace -----------------------------
(* Judges recorded renderings of validation results. *)
EXTENDS Report, TraceChecker

Bad(ev) == {i \in 1..Len(ev.views) : ~View(ev.k, ev.base, ev.views[i])}
JudgeView(ev) == [ok |-> ev.fail = "" /\ Bad(ev) = {}, want |-> <<ev.fail, {ev.views[i].f : i \in Bad(ev)}>>]
==============================================================================
