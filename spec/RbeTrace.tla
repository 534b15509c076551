------------------------------ MODULE RbeTrace ------------------------------
(* Judges recorded runs of the real bag matcher and table matcher. *)
EXTENDS Rbe, TraceChecker

(* observed: ev.obs = [deriv, interval, plain] for ev.expr, ev.bag (symbols in insertion order), ev.open *)
RbeVerdict(ev) ==
  LET want == Accepts(ev.expr, ev.bag, ev.open)
  IN [ok |-> /\ ev.obs.deriv = want
             /\ ev.obs.plain = want
             /\ ev.obs.interval = want,
      want |-> want]

SetOfSeq(s) == {s[i] : i \in 1..Len(s)}
(* each offered assignment is a sequence of <<pair number, component>> *)
AsFunction(a, n) == [i \in 1..n |-> LET h == {k \in 1..Len(a) : a[k][1] = i}
                                    IN IF Cardinality(h) = 1 THEN a[CHOOSE k \in h : TRUE][2] ELSE 0]
TableVerdict(ev) ==
  LET n == Len(ev.pairs)
      want == ValidAssignments(ev.comps, ev.expr, ev.pairs)
      offered == {AsFunction(a, n) : a \in SetOfSeq(ev.obs.assignments)}
  IN [ok |-> /\ ev.obs.exists = (want # {})
             /\ offered \subseteq want
             /\ (want # {} => ev.obs.feasible)
             /\ (want # {} => offered # {}),
      want |-> [exists |-> want # {}, assignments |-> want]]

JudgeAny(ev) == IF ev.op = "rbe" THEN RbeVerdict(ev) ELSE TableVerdict(ev)

=============================================================================
