----------------------------- MODULE SessionTrace -----------------------------
(* Judges recorded sessions. ev.runs: several histories over the same documents,  *)
(* each a sequence of operations with what was observed: [ok, v, snap]. Each       *)
(* operation must succeed exactly when the specification says so and show what it  *)
(* says; and what all read-only operations show (snap) must be a function of the   *)
(* state of the specification, across all the histories of the event.              *)
EXTENDS Session, TraceChecker

OpOf(ev, o) == IF "d" \in DOMAIN o THEN [o EXCEPT !.doc = ev.docs[o.d]]
               ELSE IF "ds" \in DOMAIN o THEN [o EXCEPT !.docs = [i \in 1..Len(o.ds) |-> ev.docs[o.ds[i]]]]
               ELSE o
RECURSIVE Run(_, _, _, _, _)
(* [ok, at, why, st, snaps] *)
Run(ev, run, k, st, snaps) ==
  IF k > Len(run.ops) THEN [ok |-> TRUE, at |-> 0, why |-> "", want |-> {}, snaps |-> snaps]
  ELSE IF k > Len(run.obs) THEN [ok |-> FALSE, at |-> k, why |-> "no observation", want |-> {}, snaps |-> snaps]
  ELSE LET op == OpOf(ev, run.ops[k])
           ob == run.obs[k]
           r == Step(st, op)
       IN IF ob.fail # "" THEN [ok |-> FALSE, at |-> k, why |-> ob.fail, want |-> {}, snaps |-> snaps]
          ELSE IF ob.ok # r.ok THEN [ok |-> FALSE, at |-> k, why |-> IF r.ok THEN "should succeed" ELSE "should fail", want |-> {}, snaps |-> snaps]
          ELSE IF ob.ok /\ ob.judge /\ Rng(ob.v) # r.v THEN [ok |-> FALSE, at |-> k, why |-> "shows something else", want |-> r.v, snaps |-> snaps]
          ELSE Run(ev, run, k + 1, r.st, IF op.op = "snapshot" THEN Append(snaps, <<r.st, ob.snap, k>>) ELSE snaps)

(* what the two snapshots show that is not the choice among several aliases of one namespace *)
Injective(pm) == \A x \in pm : \A y \in pm : x[2] = y[2] => x = y
OneName(st) == \A pm \in {st.data.pm, st.sch.pm, st.smap.npm, st.smap.spm, st.shl.pm} : Injective(pm)
(* what Map actions bind is determined when no variable can be bound twice *)
MapKnown(m) ==
  IF m[1] # "by" THEN TRUE
  ELSE LET ts == m[2].ts
           shapes == Rng(m[3].shapes)
           tcs == UNION {Rng(s.tcs) : s \in shapes}
           acts == {t \in tcs : t.act # ""}
       IN \/ acts = {}
          \/ /\ Cardinality({s \in shapes : \E t \in Rng(s.tcs) : t.act # ""}) = 1
             /\ Cardinality({t.act : t \in acts}) = Cardinality(acts)
             /\ \A t \in tcs : t.ref = 0
             /\ Cardinality({a[1] : a \in Rng(m[4].as)}) = 1
             /\ \A x \in ts : \A y \in ts : x[1] = y[1] /\ x[2] = y[2] => x = y
Plain == {"prefixes", "has_data", "data_nt", "dctap", "service", "rdf_config", "pgschema", "pg_report", "query", "map_state"}
Differ(st, a, b) ==
  LET ks == DOMAIN a \cup DOMAIN b
  IN {x \in (IF OneName(st) THEN ks ELSE ks \cap Plain) \ (IF MapKnown(st.map) THEN {} ELSE {"map_state"}) : x \notin DOMAIN a \/ x \notin DOMAIN b \/ a[x] # b[x]}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
JudgeSession(ev) ==
  LET rs == [i \in 1..Len(ev.runs) |-> Run(ev, ev.runs[i], 1, Start, <<>>)]
      bad == {i \in 1..Len(rs) : ~rs[i].ok}
      snaps == Cat([i \in 1..Len(rs) |-> rs[i].snaps])
      owner == Cat([i \in 1..Len(rs) |-> [j \in 1..Len(rs[i].snaps) |-> i]])
  IN IF bad # {}
     THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j
          IN [ok |-> FALSE, want |-> [run |-> i, step |-> rs[i].at, why |-> rs[i].why, v |-> rs[i].want]]
     ELSE LET same == {p \in (1..Len(snaps)) \X (1..Len(snaps)) : p[1] < p[2] /\ snaps[p[1]][1] = snaps[p[2]][1]}
              diff == {p \in same : snaps[p[1]][2] # snaps[p[2]][2] /\ Differ(snaps[p[1]][1], snaps[p[1]][2], snaps[p[2]][2]) # {}}
          IN IF ev.count THEN [ok |-> FALSE, want |-> [same |-> Cardinality(same)]]
             ELSE IF diff = {} THEN [ok |-> TRUE, want |-> ""]
             ELSE LET p == CHOOSE p \in diff : TRUE
                  IN [ok |-> FALSE, want |-> [why |-> "equal states show different things",
                        one |-> <<owner[p[1]], snaps[p[1]][3]>>, two |-> <<owner[p[2]], snaps[p[2]][3]>>,
                        keys |-> Differ(snaps[p[1]][1], snaps[p[1]][2], snaps[p[2]][2])]]
==============================================================================
