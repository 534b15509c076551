------------------------------ MODULE PgTrace --------------------------------
(* ev.nt: node types, name -> [f]; ev.et: edge types, name -> [src, f, tgt];   *)
(* ev.nodes: name -> [l, r]; ev.edges: name -> [l, r, src, tgt];               *)
(* ev.rows: <<[e, t, should, got, alsogot]>> what was reported for element e   *)
(* and type t; ev.valid, ev.failed: the summary and the comparison with what   *)
(* the map expects; ev.fail: "" or how the validation failed.                  *)
EXTENDS Pg, TraceChecker

Rec(r) == [k \in DOMAIN r |-> { r[k][i] : i \in 1..Len(r[k]) }]
Lab(l) == { l[i] : i \in 1..Len(l) }

(* "y", "n" or "any" when the specification leaves the answer open             *)
Fits(ev, f, x) ==
  IF Missing(ev.nt, f) THEN IF Cyclic(ev.nt, f) THEN "any" ELSE "n"
  ELSE IF Cyclic(ev.nt, f) THEN "any"
  ELSE LET a == Member(ev.nt, f, Lab(x.l), Rec(x.r), TRUE)
           b == Member(ev.nt, f, Lab(x.l), Rec(x.r), FALSE)
       IN IF a # b THEN "any" ELSE IF a THEN "y" ELSE "n"
Conforms(ev, e, t) ==
  IF e \in DOMAIN ev.nodes
  THEN IF t \in DOMAIN ev.nt THEN Fits(ev, ev.nt[t].f, ev.nodes[e]) ELSE "n"
  ELSE IF t \in DOMAIN ev.et
       THEN LET x == ev.edges[e]
                ty == ev.et[t]
                w == {Fits(ev, ty.src, ev.nodes[x.src]), Fits(ev, ty.f, x), Fits(ev, ty.tgt, ev.nodes[x.tgt])}
                missing == Missing(ev.nt, ty.src) \/ Missing(ev.nt, ty.f) \/ Missing(ev.nt, ty.tgt)
            IN IF "n" \in w \/ missing THEN "n" ELSE IF "any" \in w THEN "any" ELSE "y"
       ELSE "n"
Known(ev, e) == e \in DOMAIN ev.nodes \cup DOMAIN ev.edges

Bad(ev, i) == LET r == ev.rows[i] IN
  \/ r.e # ev.ask[i].e \/ r.t # ev.ask[i].t
  \/ r.got # r.alsogot
  \/ LET w == Conforms(ev, r.e, r.t) IN w # "any" /\ (w = "y") # r.got
Judge(ev) ==
  LET lost == \E i \in 1..Len(ev.ask) : ~Known(ev, ev.ask[i].e)
      why == IF ev.fail # "" THEN IF lost /\ ev.fail = "error" THEN "" ELSE "fail"
             ELSE IF lost THEN "unknown element accepted"
             ELSE IF Len(ev.rows) # Len(ev.ask) THEN "rows"
             ELSE LET bad == { i \in 1..Len(ev.ask) : Bad(ev, i) }
                  IN IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                                      IN "row " \o ToString(i) \o " should be " \o Conforms(ev, ev.ask[i].e, ev.ask[i].t)
             ELSE IF ev.valid # (\A i \in 1..Len(ev.rows) : ev.rows[i].got) /\ (\A i \in 1..Len(ev.ask) : ev.ask[i].should) THEN "summary"
             ELSE IF ev.failed # <<"none">> /\ Lab(ev.failed) # { ev.rows[i].e \o ":" \o ev.rows[i].t : i \in { j \in 1..Len(ev.rows) : ev.rows[j].got # ev.ask[j].should } }
                  THEN "comparison with the expected result"
             ELSE ""
  IN [ok |-> why = "", want |-> why]
=============================================================================
