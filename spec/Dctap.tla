-------------------------------- MODULE Dctap --------------------------------
(* Tabular application profiles. A profile is a sequence of shapes             *)
(* [ext, rows]: ext the shapes whose rows it takes over, and a row is           *)
(* [p, mand, rep, kinds, dts, haspick, pick, haspat, pat, facets, refs]: mand and rep    *)
(* are "yes", "no" or "none" (the profile has no such column), kinds the node    *)
(* types, dts the datatypes, pick the listed values ([iri, s]: the IRI the text   *)
(* stands for, and the text), pat a pattern, facets further constraints (lengths   *)
(* and bounds), refs the shapes.                                                   *)
(* A reading rd = [min, max, lit] settles what profiles leave to applications:    *)
(* the cardinality bounds when there is no column, and whether a listed literal    *)
(* of no stated datatype is a plain string or may have any datatype.               *)
EXTENDS ShEx

Bare(r) == r.dts = <<>> /\ (r.kinds = <<>> \/ Rng(r.kinds) \subseteq {"iri", "bnode"})
PickSat(t, v, r, rd) ==
  IF Bare(r) THEN IsIri(t) /\ t.s = v.iri
  ELSE IsLit(t) /\ t.s = v.s /\ (IF r.dts = <<>> THEN rd.lit \/ t.dt = "string" ELSE t.dt \in Rng(r.dts))
RowVal(n, r, g, T, rd) ==
  LET t == g.nodes[n] IN
  /\ r.kinds = <<>> \/ \E k \in Rng(r.kinds) : KindSat(t, k)
  /\ r.dts = <<>> \/ \E d \in Rng(r.dts) : DtSat(t, d)
  /\ r.haspick => \E v \in Rng(r.pick) : PickSat(t, v, r, rd)
  /\ r.haspat => PatternMatch(r.pat, t.s)
  /\ \A i \in 1..Len(r.facets) : FacetSat(t, r.facets[i])
  /\ r.refs = <<>> \/ \E i \in Rng(r.refs) : <<n, i>> \in T
MinOfRow(r, rd) == CASE r.mand = "yes" -> 1 [] r.mand = "no" -> 0 [] OTHER -> rd.min
MaxOfRow(r, rd) == CASE r.rep = "yes" -> -1 [] r.rep = "no" -> 1 [] OTHER -> rd.max
Arcs(g, n, p) == {a \in ArcSet(g) : a[1] = n /\ a[2] = p}
RowSat(n, r, g, T, rd) == LET as == Arcs(g, n, r.p) IN
  Within(Cardinality(as), MinOfRow(r, rd), MaxOfRow(r, rd)) /\ \A a \in as : RowVal(a[3], r, g, T, rd)

RECURSIVE Chain(_, _)
Chain(prof, S) == LET S2 == S \cup UNION {Rng(prof[i].ext) : i \in S} IN IF S2 = S THEN S ELSE Chain(prof, S2)
RowsOf(prof, i) == UNION {{<<j, k>> : k \in 1..Len(prof[j].rows)} : j \in Chain(prof, {i})}
ShapeSat(n, i, prof, g, T, rd) == \A x \in RowsOf(prof, i) : RowSat(n, prof[x[1]].rows[x[2]], g, T, rd)
(* no shape has two rows for one property *)
Distinct(prof) == \A i \in 1..Len(prof) : \A x, y \in RowsOf(prof, i) : prof[x[1]].rows[x[2]].p = prof[y[1]].rows[y[2]].p => x = y

RECURSIVE DirectFix(_, _, _, _)
DirectFix(prof, g, T, rd) == LET T2 == {x \in T : ShapeSat(x[1], x[2], prof, g, T, rd)}
                             IN IF T2 = T THEN T ELSE DirectFix(prof, g, T2, rd)
Direct(prof, g, rd) == DirectFix(prof, g, (1..Len(g.nodes)) \X (1..Len(prof)), rd)

(* the ShEx schema of a profile: what conversion has to mean *)
NC0 == [k |-> "nc", kind |-> "", dt |-> "", facets |-> <<>>, hasvals |-> FALSE, vals |-> <<>>]
AsTerm(v, r, d) == IF Bare(r) THEN [t |-> "iri", s |-> v.iri, dt |-> "", lang |-> <<>>]
                   ELSE [t |-> "lit", s |-> v.s, dt |-> d, lang |-> <<>>]
PickNC(r) == LET ds == IF r.dts = <<>> THEN <<"string">> ELSE r.dts
                 Vals(d) == [i \in 1..Len(r.pick) |-> [k |-> "obj", t |-> AsTerm(r.pick[i], r, d)]]
             IN [k |-> "or", es |-> [j \in 1..Len(ds) |-> [NC0 EXCEPT !.hasvals = TRUE, !.vals = Vals(ds[j])]]]
ValueExpr(r) ==
  LET p1 == IF r.kinds = <<>> THEN <<>> ELSE <<[k |-> "or", es |-> [i \in 1..Len(r.kinds) |-> [NC0 EXCEPT !.kind = r.kinds[i]]]]>>
      p2 == IF r.dts = <<>> THEN <<>> ELSE <<[k |-> "or", es |-> [i \in 1..Len(r.dts) |-> [NC0 EXCEPT !.dt = r.dts[i]]]]>>
      p3 == IF r.haspick THEN <<PickNC(r)>> ELSE <<>>
      p4 == IF r.haspat THEN <<[NC0 EXCEPT !.facets = <<[k |-> "pattern", pat |-> r.pat]>>]>> ELSE <<>>
      p6 == IF r.facets = <<>> THEN <<>> ELSE <<[NC0 EXCEPT !.facets = r.facets]>>
      p5 == IF r.refs = <<>> THEN <<>> ELSE <<[k |-> "or", es |-> [i \in 1..Len(r.refs) |-> [k |-> "ref", i |-> r.refs[i]]]]>>
  IN [k |-> "and", es |-> p1 \o p2 \o p3 \o p4 \o p5 \o p6]
ToShape(sh, rd) ==
  [k |-> "shape", closed |-> FALSE, extra |-> <<>>, ext |-> sh.ext,
   tcs |-> [i \in 1..Len(sh.rows) |-> [p |-> sh.rows[i].p, inv |-> FALSE, ve |-> ValueExpr(sh.rows[i])]],
   te |-> IF sh.rows = <<>> THEN [k |-> "empty"]
          ELSE [k |-> "and", es |-> [i \in 1..Len(sh.rows) |-> [k |-> "sym", v |-> i, min |-> MinOfRow(sh.rows[i], rd), max |-> MaxOfRow(sh.rows[i], rd)]]]]
ToSchema(prof, rd) == [shapes |-> [i \in 1..Len(prof) |-> [abs |-> FALSE, e |-> ToShape(prof[i], rd)]]]
Converted(prof, g, rd) == LET sch == ToSchema(prof, rd)
                              T == Typing(sch, g, FALSE)
                          IN {x \in (1..Len(g.nodes)) \X (1..Len(prof)) : \E j \in Descendants(sch, x[2]) : <<x[1], j>> \in T}

Meaning(prof, g, rd) == IF Distinct(prof) THEN Direct(prof, g, rd) ELSE Converted(prof, g, rd)
(* the readings between which a profile leaves the choice *)
Rows(prof) == UNION {Rng(prof[i].rows) : i \in 1..Len(prof)}
Readings(prof) ==
  {[min |-> a, max |-> b, lit |-> l] :
     a \in (IF \E r \in Rows(prof) : r.mand = "none" THEN {0, 1} ELSE {0}),
     b \in (IF \E r \in Rows(prof) : r.rep = "none" THEN {1, -1} ELSE {1}),
     l \in (IF Distinct(prof) /\ \E r \in Rows(prof) : r.haspick /\ ~Bare(r) /\ r.dts = <<>> THEN BOOLEAN ELSE {FALSE})}
=============================================================================
