--------------------------- MODULE ShapeMapTrace -----------------------------
(* ev.sch, ev.g, ev.start (index of the start expression among the shapes),     *)
(* ev.assocs, ev.obs: sequence of <<node, label, conforms>>, ev.fail,   *)
(* ev.refused: the schema was refused because of a negation cycle                   *)
EXTENDS ShapeMap, TraceChecker

Index(ev, l) == IF l = 0 THEN ev.start ELSE l
Expected(ev, T, n, l) == l # UNDECLARED /\ <<n, Index(ev, l)>> \in T
JudgeRows(ev) ==
  LET asked == Asked(ev.g, ev.assocs)
      T == Typing(ev.sch, ev.g, FALSE)
      rows == Rng(ev.obs)
      ok == /\ ev.fail = ""
            /\ Len(ev.obs) = Cardinality(rows)
            /\ { <<r[1], r[2]>> : r \in rows } = asked
            /\ Cardinality(rows) = Cardinality(asked)
            /\ \A r \in rows : r[3] = Expected(ev, T, r[1], r[2])
  IN [ok |-> ok, want |-> { <<a[1], a[2], Expected(ev, T, a[1], a[2])>> : a \in asked }]
JudgeMap(ev) == IF ev.refused THEN [ok |-> MayRefuse(ev.sch), want |-> {}]
                ELSE IF MustRefuse(ev.sch) THEN [ok |-> FALSE, want |-> {}]
                ELSE IF NegCycleIn(DepFun(ev.sch)) THEN [ok |-> TRUE, want |-> {}]
                ELSE JudgeRows(ev)
=============================================================================
