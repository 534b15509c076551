------------------------------ MODULE Compare --------------------------------
(* Comparison of two shapes by the properties they mention.                    *)
(* A shape is a sequence of triple constraints [p |-> IRI, v |-> value], where *)
(* value = [k, x]: "any", "datatype" x, "nodekind" x, "ref" x or "other".      *)
(* A property that a shape constrains several times has several descriptions,  *)
(* of which an answer gives one.                                               *)
EXTENDS Naturals, Sequences, FiniteSets

Rng(s) == { s[i] : i \in 1..Len(s) }
Props(sh) == { sh[i].p : i \in 1..Len(sh) }
Descr(sh, p) == { sh[i].v : i \in { j \in 1..Len(sh) : sh[j].p = p } }

Both(a, b) == Props(a) \cap Props(b)
Only(a, b) == Props(a) \ Props(b)

(* An answer: eq, p1, p2 are sequences of rows [p, d1, d2] / [p, d] as printed  *)
NoRepeat(s) == \A i, j \in 1..Len(s) : s[i].p = s[j].p => i = j
Covers(s, ps) == { s[i].p : i \in 1..Len(s) } = ps /\ NoRepeat(s)
Ok(d, sh, p) == LET w == Descr(sh, p)
                IN d \in w \/ \E x \in w : x.k = "other"

Wrong(a, b, ans) ==
  IF ~Covers(ans.eq, Both(a, b)) THEN "common"
  ELSE IF ~Covers(ans.p1, Only(a, b)) THEN "only first"
  ELSE IF ~Covers(ans.p2, Only(b, a)) THEN "only second"
  ELSE IF ans.descr /\ \E i \in 1..Len(ans.eq) : ~Ok(ans.eq[i].d1, a, ans.eq[i].p) \/ ~Ok(ans.eq[i].d2, b, ans.eq[i].p) THEN "description of common"
  ELSE IF ans.descr /\ \E i \in 1..Len(ans.p1) : ~Ok(ans.p1[i].d1, a, ans.p1[i].p) THEN "description of first"
  ELSE IF ans.descr /\ \E i \in 1..Len(ans.p2) : ~Ok(ans.p2[i].d1, b, ans.p2[i].p) THEN "description of second"
  ELSE ""
=============================================================================
