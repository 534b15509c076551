------------------------------ MODULE Generate -------------------------------
(* Synthetic data. A generation is described by its schema (shapes with         *)
(* properties: predicate, kind of value, cardinality) and its configuration     *)
(* (entity count, how entities are spread over the shapes, exclusions). The     *)
(* result is a graph; this module says which graphs are right.                  *)
(*  shape    = [id, props]   prop = [p, k, x, min, max]   (max = -1: unbounded) *)
(*             k: "lit" (x: datatype), "ref" (x: shape), "iri", "literal",      *)
(*                "set" (vs: the terms allowed), "any"                          *)
(*  cfg      = [count, dist, w, nomin, excluded, maxprops]                      *)
(*             dist: "equal" | "weighted" | "custom"; w: one number per shape   *)
(*             over: per shape, <<>> or <<the nomin, excluded and maxprops that  *)
(*             hold for its entities>>                                           *)
(*             k = "lit" also has f: limits [k, num] of its values               *)
(*  subjects = <<[id, arcs]>>   arc = [p, os]   o: a term of Terms, with i the  *)
(*             identity of an IRI                                               *)
EXTENDS Terms

RdfType == "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
RangeOf(s) == { s[i] : i \in 1..Len(s) }
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))

(* ---- how many entities ---- *)
(* the numbers of entities that shape i may be given *)
Shares(cfg, n, i) ==
  CASE cfg.dist = "custom" -> {cfg.w[i]}
    [] cfg.dist = "equal" -> { cfg.count \div n } \union (IF cfg.count % n = 0 THEN {} ELSE { cfg.count \div n + 1 })
    [] cfg.dist = "weighted" ->
         LET t == cfg.w[i] * cfg.count
             W == SumOf(cfg.w)
         IN { t \div W } \union (IF t % W = 0 THEN {} ELSE { t \div W + 1 })
Requested(cfg) == IF cfg.dist = "custom" THEN SumOf(cfg.w) ELSE cfg.count
MaxOfSet(S) == CHOOSE x \in S : \A y \in S : y <= x

(* entities that had to be added because a property needs more targets than there are *)
Refs(shapes, id) == UNION { { shapes[i].props[k] : k \in { k \in 1..Len(shapes[i].props) : shapes[i].props[k].k = "ref" /\ shapes[i].props[k].x = id } } : i \in 1..Len(shapes) }
MinOfSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MayGrow(shapes, cfg, i) == \E r \in Refs(shapes, shapes[i].id) : \/ r.min > MinOfSet(Shares(cfg, Len(shapes), i))
                                                                 \/ r.max > MinOfSet(Shares(cfg, Len(shapes), i))
                                                                 \/ r.max = -1 /\ MinOfSet(Shares(cfg, Len(shapes), i)) < 5

CountProblem(shapes, cfg, n) == \* n[i]: entities of shape i
  LET N == Len(shapes)
      grow == { i \in 1..N : MayGrow(shapes, cfg, i) }
      total == SumOf(n)
  IN IF \E i \in 1..N : i \notin grow /\ n[i] \notin Shares(cfg, N, i) THEN "entities of a shape"
     ELSE IF \E i \in grow : n[i] < MinOfSet(Shares(cfg, N, i)) THEN "entities of a shape"
     ELSE IF grow = {} /\ total # Requested(cfg) THEN "number of entities"
     ELSE IF total < Requested(cfg) THEN "number of entities"
     ELSE ""

(* ---- the values of a property ---- *)
Limit(f, o) ==
  CASE f.k = "min" -> NumLeq(NumOf(f.num), NumVal(o))
    [] f.k = "minx" -> NumLess(NumOf(f.num), NumVal(o))
    [] f.k = "max" -> NumLeq(NumVal(o), NumOf(f.num))
    [] f.k = "maxx" -> NumLess(NumVal(o), NumOf(f.num))
Fits(p, o, typed) == \* typed: pairs <<id, shape>>
  CASE p.k = "lit" -> /\ IsLit(o) /\ o.lang = <<>> /\ o.dt = p.x /\ WellFormed(o)
                      /\ \A f \in 1..Len(p.f) : Limit(p.f[f], o)
    [] p.k = "ref" -> IsIri(o) /\ <<o.i, p.x>> \in typed
    [] p.k = "iri" -> IsIri(o)
    [] p.k = "literal" -> IsLit(o)
    [] p.k = "set" -> o \in RangeOf(p.vs)
    [] OTHER -> TRUE

ArcProblem(cfg, props, arc, typed) ==
  LET ps == { k \in 1..Len(props) : props[k].p = arc.p }
      n == Len(arc.os)
      open == \E k \in ps : props[k].max = -1
      idx == { k : k \in ps }
      RECURSIVE Sum(_, _)
      Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
      hi == Sum(idx, [k \in ps |-> IF props[k].max = -1 THEN 0 ELSE props[k].max])
  IN IF ps = {} THEN "undeclared property"
     ELSE IF arc.p \in RangeOf(cfg.excluded) THEN "excluded property"
     ELSE IF ~open /\ n > hi THEN "too many values"
     ELSE IF \E j \in 1..n : \A k \in ps : ~Fits(props[k], arc.os[j], typed) THEN "value"
     ELSE ""

NumOfArc(arcs, p) == IF \E a \in 1..Len(arcs) : arcs[a].p = p THEN LET a == CHOOSE a \in 1..Len(arcs) : arcs[a].p = p IN Len(arcs[a].os) ELSE 0
(* Values of different declarations of a predicate may coincide, so together they need as many as the biggest minimum *)
FewProblem(cfg, props, arcs) ==
  IF cfg.nomin \/ cfg.maxprops > 0 THEN ""
  ELSE IF \E k \in 1..Len(props) : props[k].p \notin RangeOf(cfg.excluded) /\ NumOfArc(arcs, props[k].p) < props[k].min
       THEN "too few values" ELSE ""

Types(s) == UNION { { a.os[j].i : j \in 1..Len(a.os) } : a \in { a \in RangeOf(s.arcs) : a.p = RdfType } }
Without(arcs, p) == SelectSeq(arcs, LAMBDA a : a.p # p)

\* the configuration of the entities of shape i
Effective(cfg0, i) == IF cfg0.over[i] = <<>> THEN cfg0
                      ELSE [cfg0 EXCEPT !.nomin = cfg0.over[i][1].nomin, !.excluded = cfg0.over[i][1].excluded, !.maxprops = cfg0.over[i][1].maxprops]

SubjectProblem(shapes, cfg0, s, typed) ==
  LET ts == Types(s)
      is == { i \in 1..Len(shapes) : shapes[i].id \in ts }
      arcs == Without(s.arcs, RdfType)
  IN IF Cardinality(ts) # 1 \/ is = {} THEN "type"
     ELSE LET sh == shapes[CHOOSE i \in is : TRUE]
              cfg == Effective(cfg0, CHOOSE i \in is : TRUE)
              bad == { a \in 1..Len(arcs) : ArcProblem(cfg, sh.props, arcs[a], typed) # "" }
          IN IF bad # {} THEN arcs[MinOfSet(bad)].p \o ": " \o ArcProblem(cfg, sh.props, arcs[MinOfSet(bad)], typed)
             ELSE IF FewProblem(cfg, sh.props, arcs) # "" THEN FewProblem(cfg, sh.props, arcs)
             ELSE IF cfg.maxprops > 0 /\ Len(arcs) > cfg.maxprops THEN "too many properties"
             ELSE ""

GraphProblem(shapes, cfg, subjects) ==
  LET typed == UNION { { <<subjects[j].id, t>> : t \in Types(subjects[j]) } : j \in 1..Len(subjects) }
      n == [i \in 1..Len(shapes) |-> Cardinality({ e \in typed : e[2] = shapes[i].id })]
      bad == { j \in 1..Len(subjects) : SubjectProblem(shapes, cfg, subjects[j], typed) # "" }
  IN IF bad # {} THEN subjects[MinOfSet(bad)].id \o " " \o SubjectProblem(shapes, cfg, subjects[MinOfSet(bad)], typed)
     ELSE CountProblem(shapes, cfg, n)
=============================================================================
