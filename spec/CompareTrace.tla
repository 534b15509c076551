---------------------------- MODULE CompareTrace -----------------------------
(* ev.shapes: the shapes of a session (schema 1 and schema 2 may be the same); *)
(* ev.plain[i]: the documented comparable forms, which may not be refused;     *)
(* ev.answers[k]: [a, b, fail, eq, p1, p2, descr] the answer for shapes a, b.  *)
EXTENDS Compare, TraceChecker

One(ev, x) ==
  IF x.fail # "" THEN IF ev.plain[x.a] /\ ev.plain[x.b] THEN "fail" ELSE IF x.fail = "error" THEN "" ELSE "fail"
  ELSE Wrong(ev.shapes[x.a], ev.shapes[x.b], x)

(* swapping the shapes swaps the one-sided lists; nothing differs from itself *)
Ps(s) == { s[i].p : i \in 1..Len(s) }
Swapped(ev) == \A i, j \in 1..Len(ev.answers) :
  LET x == ev.answers[i]
      y == ev.answers[j]
  IN (x.a = y.b /\ x.b = y.a /\ x.fail = "" /\ y.fail = "")
       => (Ps(x.eq) = Ps(y.eq) /\ Ps(x.p1) = Ps(y.p2) /\ Ps(x.p2) = Ps(y.p1) /\ (x.a = x.b => x.p1 = <<>> /\ x.p2 = <<>>))

Judge(ev) ==
  LET bad == { k \in 1..Len(ev.answers) : One(ev, ev.answers[k]) # "" }
      why == IF bad # {} THEN LET k == CHOOSE k \in bad : \A l \in bad : k <= l
                              IN ToString(k) \o ": " \o One(ev, ev.answers[k])
             ELSE IF ~Swapped(ev) THEN "swap" ELSE ""
  IN [ok |-> why = "", want |-> why]
=============================================================================
