----------------------------- MODULE ShaclTrace -----------------------------
(* Judges recorded SHACL validation reports. *)
EXTENDS Shacl, TraceChecker

(* ev.obs: sequence of results <<focus, path, value, component, source, severity>>; ev.conforms *)
ReportOk(o, want) == o.fail = "" /\ Rng(o.res) = want /\ o.conforms = (want = {})
(* op "report": every run of ev.runs must give the report the specification derives *)
ReportVerdict(ev) ==
  LET want == Report(Env(ev))
  IN [ok |-> \A i \in 1..Len(ev.runs) : ReportOk(ev.runs[i], want), want |-> want]
(* op "agree": the runs must agree with each other, verdict and set of results *)
Core(r) == {<<x[1], x[2], x[3], x[4], x[5]>> : x \in Rng(r.res)}
AgreeVerdict(ev) ==
  [ok |-> /\ \A i \in 1..Len(ev.runs) : ev.runs[i].fail = ""
          /\ \A i \in 2..Len(ev.runs) : Core(ev.runs[i]) = Core(ev.runs[1]) /\ ev.runs[i].conforms = ev.runs[1].conforms,
   want |-> Report(Env(ev))]
JudgeShacl(ev) == CASE ev.op = "report" -> ReportVerdict(ev)
                    [] ev.op = "agree" -> AgreeVerdict(ev)
==============================================================================
