------------------------------ MODULE MCReport ------------------------------
(* A report is written as RDF: nodes are made for the report and its results *)
(* while the nodes that the results mention may already have any label.      *)
EXTENDS Report

CONSTANTS Labels, MaxResults
VARIABLES focus, counter, made, triples
vars == <<focus, counter, made, triples>>

Seqs == UNION {[1..n -> Labels \cup {0}] : n \in 0..MaxResults}   \* 0: not a blank node
Mentioned == RowsOf(focus) \ {0}
Init == focus \in Seqs /\ counter = 0 /\ made = <<>> /\ triples = {}
(* the counter moves on until its label is not mentioned *)
Fresh == CHOOSE n \in counter + 1..counter + Cardinality(Mentioned) + 1 : n \notin Mentioned /\ \A m \in counter + 1..n - 1 : m \in Mentioned
Make ==
  /\ Len(made) <= Len(focus)
  /\ counter' = Fresh
  /\ made' = Append(made, Fresh)
  /\ triples' = IF made = <<>> THEN triples
                ELSE triples \cup {<<made[1], "result", Fresh>>, <<Fresh, "focus", focus[Len(made)]>>}
  /\ UNCHANGED focus
Spec == Init /\ [][Make]_vars /\ WF_vars(Make)
NotMixed == Unmixed(Mentioned, {t[1] : t \in triples})
Results == {t[3] : t \in {x \in triples : x[2] = "result"}}
Written == Len(made) = Len(focus) + 1 => Cardinality(Results) = Len(focus) /\ {t[3] : t \in {x \in triples : x[2] = "focus"}} = RowsOf(focus)
Ends == <>(Len(made) = Len(focus) + 1)
(* the judge's order of rows: a grouped arrangement of any rows exists and grouping by severity is implied by ascending ranks *)
RowSets == [1..3 -> {"Violation", "Warning", "Info"}]
ASSUME \A r \in RowSets : Ascending(r, Rank) => Grouped(r, LAMBDA x : x)
ASSUME \A r \in RowSets : \E q \in RowSets : SameRows(r, q) /\ Ascending(q, Rank)
==============================================================================
