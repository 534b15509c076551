---------------------------- MODULE MapStateTrace ----------------------------
(* Judges recorded bindings of map states and materialized graphs. *)
EXTENDS MapState, TraceChecker

(* ev.conf: pairs <<node, label>> reported as conforming; ev.state: <<key, node>> *)
BindVerdict(ev) ==
  LET T == Typing(ev.sch, ev.g, FALSE)
  IN [ok |-> /\ ev.fail = ""
             /\ (~HasInverse(ev.sch) => \A i \in 1..Len(ev.obs) : ev.obs[i][3] = (<<ev.obs[i][1], ev.obs[i][2]>> \in T))
             /\ StateRight(ev.sch, ev.g, {<<ev.obs[i][1], ev.obs[i][2]>> : i \in {k \in 1..Len(ev.obs) : ev.obs[k][3]}}, ev.state),
      want |-> Bindable(ev.sch, ev.g)]
(* ev.start: the start shape expression; ev.out: triples; ev.refused: the tool gave an error *)
BuildVerdict(ev) ==
  IF Recursive(ev.sch, ev.start, {}) THEN [ok |-> ev.fail = "" /\ ev.refused, want |-> "an error"]
  ELSE [ok |-> ev.fail = "" /\ ~ev.refused /\ Functional(ev.state) /\ GraphRight(ev.sch, ev.state, ev.start, ev.root, ev.out),
        want |-> EntryBag(Entries(ev.sch, ev.state, ev.start))]
JudgeMap(ev) == CASE ev.op = "bind" -> BindVerdict(ev)
                  [] ev.op = "build" -> BuildVerdict(ev)
==============================================================================
