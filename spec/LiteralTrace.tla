---------------------------- MODULE LiteralTrace ----------------------------
(* Judges recorded comparisons of literals in all their representations.       *)
(* ev.lits: terms; ev.term[i]: the literal that item i represents; ev.cmp[i][j] *)
(* in -1, 0, 1 or 2 (not comparable); ev.eq, ev.hash: Boolean matrices; ev.lt:  *)
(* 3 less, 1 equal, 0 otherwise, 9 not recorded; ev.total: the total order;     *)
(* ev.tcmp, ev.teq: the comparison and equality of the RDF terms.               *)
EXTENDS Literals, TraceChecker

SameTerm(a, b) == [a EXCEPT !.lang = Lower(@)] = [b EXCEPT !.lang = Lower(@)]
Judge(ev) ==
  LET M == Len(ev.term)
      T(i) == ev.lits[ev.term[i]]
      why == IF ev.fail # "" THEN "fail"
             ELSE LET bad == { <<i, j>> \in (1..M) \X (1..M) : Problem(ev, T(i), T(j), i, j) # "" }
                  IN IF bad # {} THEN LET p == CHOOSE p \in bad : TRUE
                                      IN Problem(ev, T(p[1]), T(p[2]), p[1], p[2]) \o " " \o ToString(p)
                  ELSE LET badt == { <<i, j>> \in (1..Len(ev.lits)) \X (1..Len(ev.lits)) :
                                       \/ ev.tcmp[i][j] \notin Allowed(ev.lits[i], ev.lits[j])
                                       \/ ev.teq[i][j] # SameTerm(ev.lits[i], ev.lits[j]) }
                       IN IF badt # {} THEN "terms " \o ToString(CHOOSE p \in badt : TRUE)
                  ELSE IF \E i, j, k \in 1..M : ev.total[i][j] <= 0 /\ ev.total[j][k] <= 0 /\ ev.total[i][k] > 0
                       THEN "total order not transitive"
                  ELSE IF \E k \in 1..(Len(ev.sorted) - 1) : ev.total[ev.sorted[k]][ev.sorted[k + 1]] > 0
                       THEN "not sorted"
                  ELSE ""
  IN [ok |-> why = "", want |-> why]
=============================================================================
