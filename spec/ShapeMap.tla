------------------------------ MODULE ShapeMap -------------------------------
(* Query shape maps: associations of a node selector with a shape label.        *)
(* A selector denotes a set of nodes of the current graph (or the node that it   *)
(* names); the result of a map holds one verdict for every selected pair.       *)
(* Labels: 0 is START, UNDECLARED a label that the schema does not declare.     *)
EXTENDS ShEx
UNDECLARED == 99

MapArcs(g) == Rng(g.arcs)
Fits(x, n) == n = 0 \/ x = n
\* s.at: "s" when the focus is the subject, "o" when it is the object
TriplePattern(g, s) ==
  IF s.at = "s" THEN { a[1] : a \in { b \in MapArcs(g) : b[2] = s.p /\ Fits(b[3], s.n) } }
  ELSE { a[3] : a \in { b \in MapArcs(g) : b[2] = s.p /\ Fits(b[1], s.n) } }
Objects(g, x, p) == { b[3] : b \in { c \in MapArcs(g) : c[1] = x /\ c[2] = p } }
Selected(g, s) ==
  CASE s.k = "node" -> {s.n}
    [] s.k = "tp" -> TriplePattern(g, s)
    \* SPARQL: the first variable of ?x p ?y . ?y q ?z
    [] s.k = "join" -> { (CASE s.at = "x" -> h[1][1] [] s.at = "y" -> h[1][3] [] OTHER -> h[2][3]) :
                          h \in { i \in MapArcs(g) \X MapArcs(g) : i[1][2] = s.p /\ i[2][2] = s.q /\ i[1][3] = i[2][1] } }
    \* { ?x p ?y } UNION { ?y q ?x }
    [] s.k = "union" -> { a[1] : a \in { b \in MapArcs(g) : b[2] = s.p } } \union { a[3] : a \in { b \in MapArcs(g) : b[2] = s.q } }
    \* ?x p ?z OPTIONAL { ?x q ?y }, asking for ?y: solutions without it select nothing
    [] s.k = "opt" -> UNION { Objects(g, a[1], s.q) : a \in { b \in MapArcs(g) : b[2] = s.p } }
    \* ?y p ?x FILTER(isIRI(?x))
    [] s.k = "filter" -> { a[3] : a \in { b \in MapArcs(g) : b[2] = s.p /\ IsIri(g.nodes[b[3]]) } }
    \* ?x p ?y . FILTER NOT EXISTS { ?x q ?z }
    [] s.k = "notex" -> { a[1] : a \in { b \in MapArcs(g) : b[2] = s.p /\ Objects(g, b[1], s.q) = {} } }

Asked(g, assocs) == UNION { Selected(g, assocs[i].sel) \X {assocs[i].shape} : i \in DOMAIN assocs }
=============================================================================
