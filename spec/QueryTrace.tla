------------------------------ MODULE QueryTrace -----------------------------
(* Judges recorded answers of queries. *)
EXTENDS Query, TraceChecker

Data(ev) == [A |-> Rng(ev.A), nodes |-> ev.nodes, pnodes |-> ev.pnodes]
JudgeQuery(ev) ==
  LET e == Data(ev) q == ev.q IN
  CASE ev.op = "select" -> [ok |-> ev.fail = "" /\ SelectRight(e, q, ev.rows) /\ Sorted(e, q, ev.rows) /\ (\A i \in 1..Len(ev.other) : ev.other[i] = ev.rows), want |-> Rows(e, q)]
    [] ev.op = "count" -> [ok |-> ev.fail = "" /\ CountRight(e, q, ev.rows) /\ (\A i \in 1..Len(ev.other) : ev.other[i] = ev.rows), want |-> Counts(e, q)]
    [] ev.op = "ask" -> [ok |-> ev.fail = "" /\ AskRight(e, q, ev.answer), want |-> Group(e, NoEnv, q.g) # {}]
    [] ev.op = "construct" -> [ok |-> ev.fail = "" /\ ConstructRight(e, q, ev.rows), want |-> Built(e, q)]
==============================================================================
