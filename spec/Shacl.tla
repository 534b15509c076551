-------------------------------- MODULE Shacl --------------------------------
(* SHACL Core: targets, property paths, constraint components, reports.        *)
(* A run is a record                                                           *)
(*   nodes  : sequence of terms (every term of data and shapes graph)          *)
(*   arcs   : sequence of <<subject, predicate, object>> (indexes; predicates  *)
(*            index pnames; 1 is rdf:type, 2 is rdfs:subClassOf)                *)
(*   shapes : sequence of                                                      *)
(*     [id, node (node shape?), path, pstr, off (deactivated), sev, targets,   *)
(*      ps (indexes of property shapes), cs (constraints)]                     *)
(* Values in results are node indexes, 0 standing for "no value".              *)
EXTENDS Sparql

------------------------------------------------------------------------------
(* instances through any chain of subclasses *)
SubP == [k |-> "p", v |-> SUBC]
SubClasses(A, c) == Closure(A, SubP, {c}, TRUE)
Instances(A, c) == LET C == SubClasses(A, c) IN {a[1] : a \in {x \in A : x[2] = TYPE /\ x[3] \in C}}
TargetNodes(A, t) ==
  CASE t.k = "node" -> {t.v}
    [] t.k \in {"class", "implicit"} -> Instances(A, t.v)
    [] t.k = "subj" -> {a[1] : a \in {x \in A : x[2] = t.v}}
    [] t.k = "obj" -> {a[3] : a \in {x \in A : x[2] = t.v}}
FocusNodes(A, s) == IF s.off THEN {} ELSE UNION {TargetNodes(A, s.targets[i]) : i \in 1..Len(s.targets)}

------------------------------------------------------------------------------
(* constraint components. e = [A, nodes, shapes, pnames]; V: the value nodes of focus f *)
Kind(t) == t.t
(* a value violates a constraint of the "one result per value node" kind *)
LenOf(t) == Len(t.s)
Bad(e, c, n) ==
  LET t == e.nodes[n]
  IN CASE c.k = "Class" -> IsLit(t) \/ n \notin Instances(e.A, c.v)
       [] c.k = "Datatype" -> ~(IsLit(t) /\ t.dt = c.dt /\ WellFormed(t))
       [] c.k = "NodeKind" -> ~\E i \in 1..Len(c.kinds) : c.kinds[i] = Kind(t)
       [] c.k = "MinExclusive" -> LitCmp(c.lit, t) # -1
       [] c.k = "MinInclusive" -> LitCmp(c.lit, t) \notin {-1, 0}
       [] c.k = "MaxExclusive" -> LitCmp(t, c.lit) # -1
       [] c.k = "MaxInclusive" -> LitCmp(t, c.lit) \notin {-1, 0}
       [] c.k = "MinLength" -> IsBNode(t) \/ LenOf(t) < c.n
       [] c.k = "MaxLength" -> IsBNode(t) \/ LenOf(t) > c.n
       [] c.k = "Pattern" -> IsBNode(t) \/ ~PatternMatch(c.pat, t.s)
       [] c.k = "LanguageIn" -> ~(IsLit(t) /\ t.lang # <<>> /\ \E i \in 1..Len(c.langs) : LangInRange(t.lang, c.langs[i]))
       [] c.k = "In" -> ~\E i \in 1..Len(c.vs) : c.vs[i] = n
ValueKinds == {"Class", "Datatype", "NodeKind", "MinExclusive", "MinInclusive", "MaxExclusive", "MaxInclusive", "MinLength",
               "MaxLength", "Pattern", "LanguageIn", "In"}
(* two values with the same language tag *)
LangClash(e, V) == \E a \in V : \E b \in V \ {a} : e.nodes[a].lang # <<>> /\ Lower(e.nodes[a].lang) = Lower(e.nodes[b].lang)

Objects(A, f, p) == {a[3] : a \in {x \in A : x[1] = f /\ x[2] = p}}
(* the properties a closed shape allows: the predicate paths of its property shapes and the ignored ones *)
Allowed(e, s, c) == {e.shapes[j].path.v : j \in {q \in Rng(s.ps) : e.shapes[q].path.k = "p"}} \union Rng(c.ignored)
(* sibling shapes of a qualified value shape *)
QConstraints(s) == {s.cs[i] : i \in {x \in 1..Len(s.cs) : s.cs[x].k = "Qualified"}}
Siblings(e, i, c) ==
  IF ~c.disj THEN {}
  ELSE LET own == {q.v : q \in QConstraints(e.shapes[i])}
           parents == {x \in 1..Len(e.shapes) : i \in Rng(e.shapes[x].ps)}
           all == UNION {{q.v : q \in QConstraints(e.shapes[j])} : j \in UNION {Rng(e.shapes[x].ps) : x \in parents}}
       IN all \ own

Res(s, f, v, comp) == <<f, s.pstr, v, comp, s.id, s.sev>>
(* a SPARQL-based constraint: every solution of its query, with the focus node pre-bound as "this", is a result; *)
(* the query's variables value and path give the value and the path of the result *)
SparqlRes(e, s, c, f) ==
  {<<f, IF "path" \in DOMAIN m THEN e.pnames[CHOOSE p \in 1..Len(e.pnodes) : e.pnodes[p] = m["path"]] ELSE s.pstr, IF "value" \in DOMAIN m THEN m["value"] ELSE f, "SPARQL", s.id, s.sev>> :
     m \in Solutions(e, "this" :> f, c.q)}

(* The results of shape i for node v depend on those of the shapes it refers to, which come  *)
(* before it in the table T of results whenever the shapes graph allows it: T[j][v] are the *)
(* results of shape j <= Len(T) for node v.                                                 *)
RECURSIVE Res4(_, _, _, _), CRes(_, _, _, _, _, _)
Results(T, e, i, v) == IF i <= Len(T) THEN T[i][v] ELSE Res4(T, e, i, v)
Conf(T, e, i, v) == Results(T, e, i, v) = {}
(* results of constraint c of shape i for focus f with value nodes V *)
CRes(T, e, i, c, f, V) ==
  LET s == e.shapes[i]
      Each(B) == {Res(s, f, v, c.k) : v \in B}
      Single(cond, comp) == IF cond THEN {Res(s, f, 0, comp)} ELSE {}
      Qual == Cardinality({v \in V : Conf(T, e, c.v, v) /\ \A x \in Siblings(e, i, c) : ~Conf(T, e, x, v)})
  IN CASE c.k \in ValueKinds -> Each({v \in V : Bad(e, c, v)})
       [] c.k = "MinCount" -> Single(Cardinality(V) < c.n, c.k)
       [] c.k = "MaxCount" -> Single(Cardinality(V) > c.n, c.k)
       [] c.k = "UniqueLang" -> Single(c.on /\ LangClash(e, V), c.k)
       [] c.k = "HasValue" -> Single(c.v \notin V, c.k)
       [] c.k = "Equals" -> Each((V \ Objects(e.A, f, c.p)) \union (Objects(e.A, f, c.p) \ V))
       [] c.k = "Disjoint" -> Each(V \intersect Objects(e.A, f, c.p))
       [] c.k = "LessThan" -> Each({v \in V : \E o \in Objects(e.A, f, c.p) : LitCmp(e.nodes[v], e.nodes[o]) # -1})
       [] c.k = "LessThanOrEquals" -> Each({v \in V : \E o \in Objects(e.A, f, c.p) : LitCmp(e.nodes[v], e.nodes[o]) \notin {-1, 0}})
       [] c.k = "And" -> Each({v \in V : \E x \in Rng(c.vs) : ~Conf(T, e, x, v)})
       [] c.k = "Or" -> Each({v \in V : \A x \in Rng(c.vs) : ~Conf(T, e, x, v)})
       [] c.k = "Xone" -> Each({v \in V : Cardinality({j \in 1..Len(c.vs) : Conf(T, e, c.vs[j], v)}) # 1})
       [] c.k = "Not" -> Each({v \in V : Conf(T, e, c.v, v)})
       [] c.k = "Node" -> Each({v \in V : ~Conf(T, e, c.v, v)})
       [] c.k = "Sparql" -> IF c.off THEN {} ELSE SparqlRes(e, s, c, f)
       [] c.k = "Qualified" -> Single(c.min >= 0 /\ Qual < c.min, "QualifiedMinCount") \union
                               Single(c.max >= 0 /\ Qual > c.max, "QualifiedMaxCount")
       [] c.k = "Closed" -> UNION {{<<f, e.pnames[a[2]], a[3], c.k, s.id, s.sev>> :
                                       a \in {x \in e.A : x[1] = v /\ x[2] \notin Allowed(e, s, c)}} : v \in V}
Res4(T, e, i, f) ==
  LET s == e.shapes[i]
  IN IF s.off THEN {}
     ELSE LET V == IF s.node THEN {f} ELSE Reach(e.A, s.path, f)
          IN UNION {CRes(T, e, i, s.cs[j], f, V) : j \in 1..Len(s.cs)} \union
             UNION {UNION {Results(T, e, q, v) : v \in V} : q \in Rng(s.ps)}

RECURSIVE Table(_, _)
Table(e, i) == IF i = 0 THEN <<>>
               ELSE LET T == Table(e, i - 1)
                    IN Append(T, TLCEval([v \in 1..Len(e.nodes) |-> Res4(T, e, i, v)]))

Env(ev) == [A |-> Rng(ev.arcs), nodes |-> ev.nodes, shapes |-> ev.shapes, pnames |-> ev.pnames, pnodes |-> ev.pnodes]
Report(e) == LET T == Table(e, Len(e.shapes)) IN UNION {UNION {T[i][f] : f \in FocusNodes(e.A, e.shapes[i])} : i \in 1..Len(e.shapes)}
==============================================================================
