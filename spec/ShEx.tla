-------------------------------- MODULE ShEx --------------------------------
(* ShEx 2.1/2.2 conformance: node constraints, shape expressions, triple       *)
(* expressions, stratified greatest-fixpoint typing, EXTENDS/ABSTRACT.         *)
EXTENDS Terms, Rbe

------------------------------------------------------------------------------
(* Node constraints: [k |-> "nc", kind, dt, facets, hasvals, vals]              *)
KindSat(t, kind) == CASE kind = "" -> TRUE
                      [] kind = "iri" -> IsIri(t)
                      [] kind = "bnode" -> IsBNode(t)
                      [] kind = "literal" -> IsLit(t)
                      [] kind = "nonliteral" -> ~IsLit(t)
DtSat(t, dt) == dt = "" \/ (IsLit(t) /\ t.dt = dt /\ WellFormed(t))
FacetSat(t, f) ==
  CASE f.k = "length" -> Len(t.s) = f.n
    [] f.k = "minlength" -> Len(t.s) >= f.n
    [] f.k = "maxlength" -> Len(t.s) <= f.n
    [] f.k = "pattern" -> PatternMatch(f.pat, t.s)
    [] f.k = "mininclusive" -> IsNumeric(t) /\ NumLeq(NumOf(f.num), NumVal(t))
    [] f.k = "minexclusive" -> IsNumeric(t) /\ NumLess(NumOf(f.num), NumVal(t))
    [] f.k = "maxinclusive" -> IsNumeric(t) /\ NumLeq(NumVal(t), NumOf(f.num))
    [] f.k = "maxexclusive" -> IsNumeric(t) /\ NumLess(NumVal(t), NumOf(f.num))
    [] f.k = "totaldigits" -> IsNumeric(t) /\ t.dt \in DecFamily /\ TotalDigitsOf(NumVal(t)) <= f.n
    [] f.k = "fractiondigits" -> IsNumeric(t) /\ t.dt \in DecFamily /\ FractionDigitsOf(NumVal(t)) <= f.n
InStem(t, kind, stem) ==
  CASE kind = "iri" -> IsIri(t) /\ StartsWith(t.s, stem)
    [] kind = "lit" -> IsLit(t) /\ StartsWith(t.s, stem)
    [] kind = "lang" -> IsLit(t) /\ t.lang # <<>> /\ (stem = <<>> \/ LangInRange(t.lang, stem))
ExclSat(t, kind, x) == \* x = [stem |-> BOOLEAN, s |-> string]
  IF x.stem THEN InStem(t, kind, x.s)
  ELSE CASE kind = "iri" -> IsIri(t) /\ t.s = x.s
         [] kind = "lit" -> IsLit(t) /\ t.s = x.s
         [] kind = "lang" -> IsLit(t) /\ t.lang # <<>> /\ Lower(t.lang) = Lower(x.s)
SameTerm(a, b) == a.t = b.t /\ a.s = b.s /\ a.dt = b.dt /\ Lower(a.lang) = Lower(b.lang)
ValSat(t, v) ==
  CASE v.k = "obj" -> SameTerm(t, v.t)
    [] v.k = "lang" -> IsLit(t) /\ t.lang # <<>> /\ Lower(t.lang) = Lower(v.s)
    [] v.k = "stem" -> /\ (v.wild \/ InStem(t, v.kind, v.s))
                       /\ \A i \in 1..Len(v.excl) : ~ExclSat(t, v.kind, v.excl[i])
NCSat(t, nc) == /\ KindSat(t, nc.kind)
                /\ DtSat(t, nc.dt)
                /\ \A i \in 1..Len(nc.facets) : FacetSat(t, nc.facets[i])
                /\ (~nc.hasvals \/ \E i \in 1..Len(nc.vals) : ValSat(t, nc.vals[i]))

------------------------------------------------------------------------------
(* Schemas: sch.shapes[i] = [abs |-> BOOLEAN, e |-> shape expression].           *)
(* Shape: [k |-> "shape", closed, extra, ext, te, tcs]; tcs[j] = [p, inv, ve].   *)
(* Graph: g.nodes[i] a term, g.arcs a sequence of <<s, p, o>>.                   *)
Rng(s) == {s[i] : i \in 1..Len(s)}
Labels(sch) == 1..Len(sch.shapes)

(* --- inheritance --- *)
RECURSIVE DirectExt(_)
DirectExt(e) == \* labels that e directly extends
  CASE e.k = "shape" -> Rng(e.ext)
    [] e.k = "and" -> UNION {DirectExt(e.es[i]) : i \in 1..Len(e.es)}
    [] OTHER -> {}
RECURSIVE DescClosure(_, _)
DescClosure(sch, S) == LET S2 == S \cup {i \in Labels(sch) : DirectExt(sch.shapes[i].e) \cap S # {}}
                       IN IF S2 = S THEN S ELSE DescClosure(sch, S2)
Descendants(sch, i) == DescClosure(sch, {i})

(* --- dependency graph: <<label, negated>> ---                                      *)
(* A reference is negated if it occurs below an odd number of NOTs (par) or inside    *)
(* something that is itself a negated dependency (st), such as a value expression     *)
(* below a NOT, or the value expression of a predicate under EXTRA. With any = TRUE    *)
(* every reference below some NOT counts: the standard does not say whether double     *)
(* negation cancels, so that schemas on which the two disagree may be refused or not.  *)
RECURSIVE Deps(_, _, _, _), UpClosure(_, _), UpRefs(_)
UpRefs(e) == CASE e.k = "shape" -> Rng(e.ext)
               [] e.k = "ref" -> {e.i}
               [] e.k \in {"and", "or"} -> UNION {UpRefs(e.es[i]) : i \in 1..Len(e.es)}
               [] OTHER -> {}
UpClosure(sch, S) == LET S2 == S \cup UNION {UpRefs(sch.shapes[x].e) : x \in S} IN IF S2 = S THEN S ELSE UpClosure(sch, S2)
Deps(e, par, st, any) ==
  CASE e.k \in {"and", "or"} -> UNION {Deps(e.es[i], par, st, any) : i \in 1..Len(e.es)}
    [] e.k = "not" -> Deps(e.e, ~par, st \/ any, any)
    [] e.k = "ref" -> {<<e.i, par \/ st>>}
    [] e.k = "shape" -> {<<x, par \/ st>> : x \in Rng(e.ext)} \cup
         UNION {Deps(e.tcs[j].ve, FALSE, par \/ st \/ (e.tcs[j].p \in Rng(e.extra) /\ ~e.tcs[j].inv), any) : j \in 1..Len(e.tcs)}
    [] OTHER -> {}
(* EXTRA also negates the inherited value expressions *)
RECURSIVE ExtraDeps(_, _)
ExtraDeps(sch, e) ==
  CASE e.k \in {"and", "or"} -> UNION {ExtraDeps(sch, e.es[i]) : i \in 1..Len(e.es)}
    [] e.k = "not" -> ExtraDeps(sch, e.e)
    [] e.k = "shape" -> IF e.ext = <<>> \/ e.extra = <<>> THEN {}
                        ELSE UNION {{<<d[1], TRUE>> : d \in {y \in Deps(sch.shapes[x].e, FALSE, FALSE, FALSE) : y[1] \notin UpRefs(sch.shapes[x].e)}} : x \in UpClosure(sch, Rng(e.ext))}
    [] OTHER -> {}
(* a reference to a label depends on its descendants, too *)
LabelDeps(sch, i, any) == UNION {{<<j, d[2]>> : j \in Descendants(sch, d[1])} : d \in Deps(sch.shapes[i].e, FALSE, FALSE, any) \cup ExtraDeps(sch, sch.shapes[i].e)}
PlainDeps(sch, i, any) == Deps(sch.shapes[i].e, FALSE, FALSE, any)
RECURSIVE Reach(_, _)
Reach(f, S) == LET S2 == S \cup UNION {{d[1] : d \in f[i]} : i \in S} IN IF S2 = S THEN S ELSE Reach(f, S2)
DepFun(sch) == [i \in Labels(sch) |-> LabelDeps(sch, i, FALSE)]
NegCycleIn(f) == \E i \in DOMAIN f : \E d \in f[i] : d[2] /\ i \in Reach(f, {d[1]})
MustRefuse(sch) == NegCycleIn([i \in Labels(sch) |-> PlainDeps(sch, i, FALSE)])
MayRefuse(sch) == NegCycleIn([i \in Labels(sch) |-> LabelDeps(sch, i, TRUE)])
(* strata: level(i) >= level of positive dependencies, > level of negative ones *)
RECURSIVE LevelFix(_, _)
LevelFix(f, lv) ==
  LET lv2 == [i \in DOMAIN f |-> LET need == {lv[d[1]] + (IF d[2] THEN 1 ELSE 0) : d \in f[i]} \cup {lv[i]}
                                 IN CHOOSE m \in need : \A x \in need : x <= m]
  IN IF lv2 = lv THEN lv ELSE LevelFix(f, lv2)
LevelsOf(sch) == LevelFix(DepFun(sch), [i \in Labels(sch) |-> 0])

(* --- conformance of a node to a shape expression under the typing C.T --- *)
ArcSet(g) == Rng(g.arcs)
RECURSIVE Sat(_, _, _), BagsOf(_, _)
(* achievable bags: every element of cs is a set of symbols (0 = leave the arc unmatched) *)
BagsOf(cs, R) == IF cs = <<>> THEN R
                 ELSE BagsOf(Tail(cs), UNION {{x + (IF v = 0 THEN 0 ELSE Weight(v)) : x \in R} : v \in cs[1]})
SubBagsOf(cs) == BagsOf([i \in 1..Len(cs) |-> cs[i] \cup {0}], {0})

RefSat(n, i, C) == \E j \in Descendants(C.sch, i) : ~C.sch.shapes[j].abs /\ <<n, j>> \in C.T

SatShape(n, e, C) ==
  LET tcs == e.tcs
      J == 1..Len(tcs)
      outs == SetToSeq({a \in ArcSet(C.g) : a[1] = n})
      ins == SetToSeq({a \in ArcSet(C.g) : a[3] = n})
      outc == [i \in 1..Len(outs) |-> {j \in J : ~tcs[j].inv /\ tcs[j].p = outs[i][2] /\ Sat(outs[i][3], tcs[j].ve, C)}]
      inc == [i \in 1..Len(ins) |-> {j \in J : tcs[j].inv /\ tcs[j].p = ins[i][2] /\ Sat(ins[i][1], tcs[j].ve, C)}
                                     \cup (IF C.strict THEN {} ELSE {0})]
      invs == {tcs[j].p : j \in {k \in J : tcs[k].inv}}
      mentioned == {tcs[j].p : j \in {k \in J : ~tcs[k].inv}}
      extra == Rng(e.extra)
      okOuts == \A i \in 1..Len(outs) :
                  IF outs[i][2] \in mentioned THEN outc[i] # {} \/ outs[i][2] \in extra
                  ELSE ~e.closed
      okIns == C.strict => \A i \in 1..Len(ins) : ins[i][2] \in invs => inc[i] # {}
      cs == SelectSeq(outc, LAMBDA x : x # {}) \o SelectSeq(inc, LAMBDA x : x \ {0} # {})
  IN okOuts /\ okIns /\ Lang(e.te, SubBagsOf(cs)) \cap BagsOf(cs, {0}) # {}

(* --- EXTENDS. The alternatives of a parent: a set of [bs, cs], bs the inherited triple   *)
(* expressions (identified by where they are written, so that a shared ancestor counts     *)
(* once), cs the remaining conjuncts with the inherited expressions whose arcs they see.   *)
RECURSIVE Alts(_, _, _, _), AltsAll(_, _, _)
CrossAlts(A, B) == {[bs |-> a.bs \cup b.bs, cs |-> a.cs \cup b.cs] : a \in A, b \in B}
NoAlt == [bs |-> {}, cs |-> {}]
AltsAll(sch, ext, path) == IF ext = <<>> THEN {NoAlt}
                           ELSE CrossAlts(AltsAll(sch, Tail(ext), path),
                                          IF ext[1] \in path THEN {NoAlt}
                                          ELSE Alts(sch, sch.shapes[ext[1]].e, <<ext[1]>>, path \cup {ext[1]}))
Alts(sch, e, id, path) ==
  CASE e.k = "shape" -> CrossAlts({[bs |-> {[id |-> id, te |-> e.te, tcs |-> e.tcs]}, cs |-> {}]}, AltsAll(sch, e.ext, path))
    [] e.k = "ref" -> AltsAll(sch, <<e.i>>, path)
    [] e.k = "or" -> UNION {Alts(sch, e.es[i], Append(id, i), path) : i \in 1..Len(e.es)}
    [] e.k = "and" ->
         LET as == [i \in 1..Len(e.es) |-> Alts(sch, e.es[i], Append(id, i), path)]
             mains == {i \in 1..Len(e.es) : \E a \in as[i] : a.bs # {}}
             m == CHOOSE i \in mains : \A j \in mains : i <= j
             rest(scope) == {[id |-> Append(id, i), e |-> e.es[i], scope |-> scope] : i \in (1..Len(e.es)) \ (IF mains = {} THEN {} ELSE {m})}
         IN IF mains = {} THEN {[bs |-> {}, cs |-> rest({})]}
            ELSE {[bs |-> a.bs, cs |-> a.cs \cup rest({b.id : b \in a.bs})] : a \in as[m]}
    [] OTHER -> {[bs |-> {}, cs |-> {[id |-> id, e |-> e, scope |-> {}]}]}
RECURSIVE AllocSeqs(_)
AllocSeqs(cs) == IF cs = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in cs[1], r \in AllocSeqs(Tail(cs))}
RECURSIVE SumW(_, _, _)
SumW(f, b, i) == IF i > Len(f) THEN 0 ELSE (IF f[i][1] = b THEN Weight(f[i][2]) ELSE 0) + SumW(f, b, i + 1)
(* a conjunct on the arcs allocated to its scope (C.whole = "all": on all arcs of the node; "mixed": negations, disjunctions and
   extending shapes are) *)
RECURSIVE SplitSat(_, _, _)
SplitSat(n, e, C) == CASE e.k = "ref" -> SplitSat(n, C.sch.shapes[e.i].e, C)
                       [] e.k = "and" -> \A i \in 1..Len(e.es) : SplitSat(n, e.es[i], C)
                       [] e.k = "or" -> \E i \in 1..Len(e.es) : SplitSat(n, e.es[i], C)
                       [] e.k = "not" -> ~SplitSat(n, e.e, C)
                       [] OTHER -> Sat(n, e, C)
(* conjuncts that are plain shapes, node constraints or conjunctions of such *)
RECURSIVE Splittable(_, _)
Splittable(e, C) == CASE e.k = "ref" -> Splittable(C.sch.shapes[e.i].e, C)
                      [] e.k = "and" -> \A i \in 1..Len(e.es) : Splittable(e.es[i], C)
                      [] e.k = "shape" -> e.ext = <<>>
                      [] OTHER -> e.k = "nc"
Whole(c, C) == C.whole = "all" \/ (C.whole = "mixed" /\ ~Splittable(c.e, C))
SatSelection(n, e, C, a) ==
  LET B == SetToSeq(a.bs \cup {[id |-> <<0>>, te |-> e.te, tcs |-> e.tcs]})
      outs == SetToSeq({x \in ArcSet(C.g) : x[1] = n})
      cand == [i \in 1..Len(outs) |-> UNION {{<<b, j>> : j \in {k \in 1..Len(B[b].tcs) : B[b].tcs[k].p = outs[i][2]
                                                                  /\ Sat(outs[i][3], B[b].tcs[k].ve, C)}} : b \in 1..Len(B)}]
      mentioned == UNION {{B[b].tcs[j].p : j \in 1..Len(B[b].tcs)} : b \in 1..Len(B)}
      okOuts == \A i \in 1..Len(outs) : IF outs[i][2] \in mentioned THEN cand[i] # {} \/ outs[i][2] \in Rng(e.extra)
                                         ELSE ~e.closed
      used == SelectSeq([i \in 1..Len(outs) |-> i], LAMBDA i : cand[i] # {})
      cs == [i \in 1..Len(used) |-> cand[used[i]]]
      langs == [b \in 1..Len(B) |-> Lang(B[b].te, SubBagsOf([i \in 1..Len(cs) |-> {x[2] : x \in {y \in cs[i] : y[1] = b}}]))]
      restricted(f, scope) == [C EXCEPT !.g.arcs = SetToSeq({x \in ArcSet(C.g) : x[1] # n}
                                  \cup {outs[used[i]] : i \in {k \in 1..Len(used) : B[f[k][1]].id \in scope}})]
  IN /\ okOuts
     /\ \A c \in a.cs : Whole(c, C) => SplitSat(n, c.e, C)
     /\ \E f \in AllocSeqs(cs) :
          /\ \A b \in 1..Len(B) : SumW(f, b, 1) \in langs[b]
          /\ \A c \in a.cs : ~Whole(c, C) => SplitSat(n, c.e, restricted(f, c.scope))
SatExtends(n, e, C) == \E a \in AltsAll(C.sch, e.ext, {}) : SatSelection(n, e, C, a)

Sat(n, e, C) ==
  CASE e.k = "any" -> TRUE
    [] e.k = "and" -> \A i \in 1..Len(e.es) : Sat(n, e.es[i], C)
    [] e.k = "or" -> \E i \in 1..Len(e.es) : Sat(n, e.es[i], C)
    [] e.k = "not" -> ~Sat(n, e.e, C)
    [] e.k = "ref" -> RefSat(n, e.i, C)
    [] e.k = "nc" -> NCSat(C.g.nodes[n], e)
    [] e.k = "shape" -> IF e.ext = <<>> THEN SatShape(n, e, C) ELSE SatExtends(n, e, C)

(* --- the completed typing: greatest fixpoint, stratum by stratum.                *)
(* strict: incoming arcs on inversely mentioned predicates must all be matched (a  *)
(* known deviation of the implementation); otherwise, as the standard says, they   *)
(* may be left over.                                                               *)
RECURSIVE Gfp(_, _, _, _, _), Strata(_, _, _, _, _, _) \* st = [strict, whole]
Gfp(sch, g, st, S, T) ==
  LET C == [sch |-> sch, g |-> g, T |-> T, strict |-> st.strict, whole |-> st.whole]
      bad == {x \in S \cap T : ~Sat(x[1], sch.shapes[x[2]].e, C)}
  IN IF bad = {} THEN T ELSE Gfp(sch, g, st, S, T \ bad)
Strata(sch, g, st, lv, k, T) ==
  IF \A i \in Labels(sch) : lv[i] < k THEN T
  ELSE LET S == {x \in (1..Len(g.nodes)) \X Labels(sch) : lv[x[2]] = k}
       IN Strata(sch, g, st, lv, k + 1, Gfp(sch, g, st, S, T \cup S))
TypingUnder(sch, g, st) == Strata(sch, g, st, LevelsOf(sch), 0, {})
Typing(sch, g, strict) == TypingUnder(sch, g, [strict |-> strict, whole |-> "no"])
RECURSIVE InvIn(_)
InvIn(e) == CASE e.k \in {"and", "or"} -> \E i \in 1..Len(e.es) : InvIn(e.es[i])
              [] e.k = "not" -> InvIn(e.e)
              [] e.k = "shape" -> \E j \in 1..Len(e.tcs) : e.tcs[j].inv \/ InvIn(e.tcs[j].ve)
              [] OTHER -> FALSE
RECURSIVE ExtIn(_)
ExtIn(e) == CASE e.k \in {"and", "or"} -> \E i \in 1..Len(e.es) : ExtIn(e.es[i])
              [] e.k = "not" -> ExtIn(e.e)
              [] e.k = "shape" -> e.ext # <<>> \/ \E j \in 1..Len(e.tcs) : ExtIn(e.tcs[j].ve)
              [] OTHER -> FALSE
HasExtends(sch) == \E i \in Labels(sch) : ExtIn(sch.shapes[i].e)
HasInverse(sch) == \E i \in Labels(sch) : InvIn(sch.shapes[i].e)
=============================================================================
