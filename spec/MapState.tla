------------------------------ MODULE MapState ------------------------------
(* ShExMap. Triple constraints carry the keys of their Map actions (tc.acts).             *)
(* A validation binds keys to values of arcs; a materialization builds a graph from a     *)
(* schema and a binding. Entries of a materialized node are <<"leaf", p, term>> or        *)
(* <<"tree", p, bag of the entries of a fresh blank node>>.                               *)
EXTENDS ShEx

(* ---- what a validation may bind, and what it has to *)
RECURSIVE Shapes(_)
Shapes(e) == CASE e.k \in {"and", "or"} -> UNION {Shapes(e.es[i]) : i \in 1..Len(e.es)}
               [] e.k = "not" -> Shapes(e.e)
               [] e.k = "shape" -> {e} \cup UNION {Shapes(e.tcs[j].ve) : j \in 1..Len(e.tcs)}
               [] OTHER -> {}
Constraints(sch) == UNION {Rng(s.tcs) : s \in UNION {Shapes(sch.shapes[i].e) : i \in Labels(sch)}}
(* values of a node constraint have to satisfy it; whether a reference holds may be found out later *)
Bindable(sch, g) ==
  UNION {{<<k, IF tc.inv THEN a[1] ELSE a[3]>> :
            k \in Rng(tc.acts), a \in {x \in ArcSet(g) : x[2] = tc.p /\ (tc.ve.k = "nc" => NCSat(g.nodes[IF tc.inv THEN x[1] ELSE x[3]], tc.ve))}}
         : tc \in Constraints(sch)}
(* keys of constraints that certainly have matched an arc of a conforming node *)
RECURSIVE Forced(_, _, _, _)
Forced(n, e, C, seen) ==
  CASE e.k = "ref" -> IF <<n, e.i>> \in seen THEN {} ELSE Forced(n, C.sch.shapes[e.i].e, C, seen \cup {<<n, e.i>>})
    [] e.k = "and" -> UNION {Forced(n, e.es[i], C, seen) : i \in 1..Len(e.es)}
    [] e.k = "shape" ->
         UNION {LET js == {j \in 1..Len(e.tcs) : ~e.tcs[j].inv /\ e.tcs[j].p = a[2] /\ Sat(a[3], e.tcs[j].ve, C)}
                IN IF Cardinality(js) # 1 \/ a[2] \in Rng(e.extra) THEN {}
                   ELSE LET tc == e.tcs[CHOOSE j \in js : TRUE] IN Rng(tc.acts) \cup Forced(a[3], tc.ve, C, seen)
                : a \in {x \in ArcSet(C.g) : x[1] = n}}
    [] OTHER -> {}
(* state: sequence of <<key, node>>, one entry for each key *)
Functional(state) == \A i, j \in 1..Len(state) : state[i][1] = state[j][1] => i = j
StateRight(sch, g, conf, state) ==
  LET T == Typing(sch, g, FALSE)
      C == [sch |-> sch, g |-> g, T |-> T, strict |-> FALSE, whole |-> "no"]
  IN /\ Functional(state)
     /\ Rng(state) \subseteq Bindable(sch, g)
     /\ \A c \in conf : c \in T => Forced(c[1], [k |-> "ref", i |-> c[2]], C, {}) \subseteq {state[i][1] : i \in 1..Len(state)}

(* ---- what a materialization builds *)
RECURSIVE Recursive(_, _, _)
Recursive(sch, e, path) ==
  CASE e.k = "ref" -> e.i \in path \/ Recursive(sch, sch.shapes[e.i].e, path \cup {e.i})
    [] e.k = "shape" -> \E j \in 1..Len(e.tcs) : e.tcs[j].ve.k \in {"ref", "shape"} /\ Recursive(sch, e.tcs[j].ve, path)
    [] OTHER -> FALSE
EntryBag(s) == [v \in Rng(s) |-> IF v[1] = "leaf" THEN 1 ELSE Cardinality({i \in 1..Len(s) : s[i] = v})]
RECURSIVE Entries(_, _, _), TeEntries(_, _, _, _), JoinAll(_)
JoinAll(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o JoinAll(Tail(ss))
Entries(sch, st, e) == CASE e.k = "ref" -> Entries(sch, st, sch.shapes[e.i].e)
                         [] e.k = "shape" -> TeEntries(sch, st, e.te, e.tcs)
                         [] OTHER -> <<>>
TeEntries(sch, st, te, tcs) ==
  CASE te.k = "sym" -> LET tc == tcs[te.v] IN
                       IF tc.ve.k \in {"ref", "shape"} THEN <<<<"tree", tc.p, EntryBag(Entries(sch, st, tc.ve))>>>>
                       ELSE LET bound == SelectSeq(tc.acts, LAMBDA k : \E i \in 1..Len(st) : st[i][1] = k)
                            IN [i \in 1..Len(bound) |-> <<"leaf", tc.p, st[CHOOSE x \in 1..Len(st) : st[x][1] = bound[i]][2]>>]
    [] te.k \in {"and", "or"} -> JoinAll([i \in 1..Len(te.es) |-> TeEntries(sch, st, te.es[i], tcs)])
    [] te.k = "rep" -> TeEntries(sch, st, te.e, tcs)
    [] OTHER -> <<>>
RECURSIVE Size(_)
Size(bag) == LET D == SetToSeq(DOMAIN bag)
                 W(v) == bag[v] * (1 + (IF v[1] = "tree" THEN Size(v[3]) ELSE 0))
                 RECURSIVE Sum(_)
                 Sum(i) == IF i > Len(D) THEN 0 ELSE W(D[i]) + Sum(i + 1)
             IN Sum(1)

(* ---- the graph that came out: a sequence of <<subject, predicate, object>> *)
RECURSIVE Unfold(_, _, _)
Unfold(ts, s, d) ==
  LET own == {i \in 1..Len(ts) : ts[i][1] = s}
      ent(i) == IF ts[i][3].t = "bnode" THEN <<"tree", ts[i][2], IF d = 0 THEN <<>> ELSE EntryBag(Unfold(ts, ts[i][3], d - 1))>>
                ELSE <<"leaf", ts[i][2], ts[i][3]>>
      o == SetToSeq(own)
  IN [k \in 1..Len(o) |-> ent(o[k])]
(* root: the sequence with the requested node, or empty for a new one *)
Roots(ts, root) == IF root # <<>> THEN {root[1]}
                   ELSE {s \in {ts[i][1] : i \in 1..Len(ts)} : s.t = "bnode" /\ \A i \in 1..Len(ts) : ts[i][3] # s}
GraphRight(sch, st, start, root, ts) ==
  LET want == EntryBag(Entries(sch, st, start))
  IN /\ Len(ts) = Size(want)
     /\ Cardinality(Rng(ts)) = Len(ts)
     /\ Len(ts) > 0 => Cardinality(Roots(ts, root)) = 1 /\ \A r \in Roots(ts, root) : EntryBag(Unfold(ts, r, 12)) = want
=============================================================================
