------------------------------- MODULE MCDctap --------------------------------
(* For all profiles of two shapes with at most one row each over a small        *)
(* alphabet and every graph of two arcs: the ShEx schema of a profile accepts    *)
(* exactly the nodes that satisfy its rows.                                      *)
EXTENDS Dctap, TLC
S(x) == <<x>>
Nodes == <<[t |-> "iri", s |-> S(97), dt |-> "", lang |-> <<>>], [t |-> "lit", s |-> S(49), dt |-> "integer", lang |-> <<>>],
           [t |-> "lit", s |-> S(49), dt |-> "string", lang |-> <<>>]>>
R0 == [p |-> 1, mand |-> "yes", rep |-> "no", kinds |-> <<>>, dts |-> <<>>, haspick |-> FALSE, pick |-> <<>>, haspat |-> FALSE, pat |-> <<>>, facets |-> <<>>, refs |-> <<>>]
V1 == [iri |-> S(97), s |-> S(49)]
Vals == {R0, [R0 EXCEPT !.kinds = <<"iri">>], [R0 EXCEPT !.kinds = <<"literal", "bnode">>], [R0 EXCEPT !.dts = <<"integer">>], [R0 EXCEPT !.dts = <<"integer", "string">>],
         [R0 EXCEPT !.haspick = TRUE, !.pick = <<V1>>], [R0 EXCEPT !.haspick = TRUE, !.pick = <<V1>>, !.kinds = <<"literal">>],
         [R0 EXCEPT !.haspick = TRUE, !.pick = <<V1>>, !.dts = <<"string", "integer">>],
         [R0 EXCEPT !.refs = <<1>>], [R0 EXCEPT !.refs = <<2>>], [R0 EXCEPT !.refs = <<1, 2>>, !.kinds = <<"iri">>]}
RowSet(ps) == {[v EXCEPT !.p = q, !.mand = m, !.rep = k] : v \in Vals, q \in ps, m \in {"yes", "no"}, k \in {"yes", "no"}}
Profs == {<<[ext |-> <<>>, rows |-> <<a>>], [ext |-> x, rows |-> <<b>>]>> : a \in RowSet({1}), b \in RowSet({2}), x \in {<<>>, <<1>>}}
Graphs == {[nodes |-> Nodes, arcs |-> a] : a \in {<<>>, <<<<1, 1, 1>>>>, <<<<1, 1, 2>>, <<1, 2, 1>>>>, <<<<1, 1, 2>>, <<1, 1, 3>>>>, <<<<1, 2, 3>>, <<1, 1, 1>>>>}}
RD == [min |-> 0, max |-> 1, lit |-> FALSE]
VARIABLE prof
Init == prof \in Profs
Next == FALSE /\ UNCHANGED prof
Spec == Init /\ [][Next]_prof
Same == \A g \in Graphs : Direct(prof, g, RD) = Converted(prof, g, RD)
=============================================================================
