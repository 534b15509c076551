-------------------------------- MODULE Sparql -------------------------------
(* Property paths, and the part of the SPARQL algebra that SHACL's SPARQL-based *)
(* constraints use, with pre-bound variables. Terms are indexes of e.nodes, 0     *)
(* stands for "unbound". e = [A (set of arcs), nodes, pnodes, ...]: predicates    *)
(* are indexes of e.pnodes, which gives their index as terms.                    *)
EXTENDS Terms, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
TYPE == 1
SUBC == 2

------------------------------------------------------------------------------
(* property paths; A is the set of arcs, back asks for the inverse relation *)
RECURSIVE Step(_, _, _, _), Closure(_, _, _, _), SeqStep(_, _, _, _, _)
Step(A, p, S, back) ==
  CASE p.k = "p" -> IF back THEN {a[1] : a \in {x \in A : x[2] = p.v /\ x[3] \in S}}
                    ELSE {a[3] : a \in {x \in A : x[2] = p.v /\ x[1] \in S}}
    [] p.k = "inv" -> Step(A, p.e, S, ~back)
    [] p.k = "alt" -> UNION {Step(A, p.es[i], S, back) : i \in 1..Len(p.es)}
    [] p.k = "seq" -> SeqStep(A, p.es, IF back THEN Len(p.es) ELSE 1, S, back)
    [] p.k = "star" -> Closure(A, p.e, S, back)
    [] p.k = "plus" -> Closure(A, p.e, Step(A, p.e, S, back), back)
    [] p.k = "opt" -> S \union Step(A, p.e, S, back)
SeqStep(A, es, i, S, back) == IF i < 1 \/ i > Len(es) THEN S
                              ELSE SeqStep(A, es, IF back THEN i - 1 ELSE i + 1, Step(A, es[i], S, back), back)
Closure(A, p, S, back) == LET T == S \union Step(A, p, S, back) IN IF T = S THEN S ELSE Closure(A, p, T, back)
Reach(A, p, n) == Step(A, p, {n}, FALSE)

------------------------------------------------------------------------------
(* Solution mappings are functions from variable names. env holds the pre-bound variables (and, within *)
(* EXISTS, those of the solution being tested): they are constants wherever they occur.                *)
GraphNodes(A) == {a[1] : a \in A} \union {a[3] : a \in A}
(* operands: [k |-> "c", n |-> index] or [k |-> "v", v |-> name] *)
Known(env, x) == x.k = "c" \/ x.v \in DOMAIN env
Const(env, x) == IF x.k = "c" THEN x.n ELSE env[x.v]
Val(env, m, x) == IF Known(env, x) THEN Const(env, x) ELSE IF x.v \in DOMAIN m THEN m[x.v] ELSE 0
Compatible(m, n) == \A v \in DOMAIN m \intersect DOMAIN n : m[v] = n[v]
Join(M, N) == {p[1] @@ p[2] : p \in {q \in M \X N : Compatible(q[1], q[2])}}

(* triple patterns: the predicate is a path or a variable *)
Pairs(e, env, t) ==
  CASE t.p.k = "v" -> {<<a[1], e.pnodes[a[2]], a[3]>> : a \in e.A}
    [] t.p.k = "p" -> {<<a[1], 0, a[3]>> : a \in {x \in e.A : x[2] = t.p.v}}
    [] OTHER -> LET ends(x) == IF Known(env, x) THEN {Const(env, x)} ELSE {}
                    from == IF Known(env, t.s) THEN ends(t.s) ELSE GraphNodes(e.A) \union ends(t.o)
                IN UNION {{<<x, 0, y>> : y \in Reach(e.A, t.p, x)} : x \in from}
TripleSol(e, env, t) ==
  LET ops == <<t.s, t.p, t.o>>
      var(i) == ops[i].k = "v" /\ ops[i].v \notin DOMAIN env
      vars == {i \in 1..3 : var(i)}
      fits(x) == /\ \A i \in {1, 3} : ~var(i) => x[i] = Const(env, ops[i])
                 /\ (t.p.k = "v" /\ ~var(2)) => x[2] = Const(env, t.p)
                 /\ \A i, j \in vars : ops[i].v = ops[j].v => x[i] = x[j]
  IN {[v \in {ops[i].v : i \in vars} |-> x[CHOOSE i \in vars : ops[i].v = v]] : x \in {y \in Pairs(e, env, t) : fits(y)}}

(* expressions: "t", "f" or "e" (error) *)
TF(x) == IF x THEN "t" ELSE "f"
NodeAt(e, i) == e.nodes[i]
IsL(e, i) == i # 0 /\ IsLit(NodeAt(e, i))
Less(e, a, b, eq) == IF a = 0 \/ b = 0 \/ ~IsL(e, a) \/ ~IsL(e, b) THEN "e"
                     ELSE LET c == LitCmp(NodeAt(e, a), NodeAt(e, b)) IN IF c \notin {-1, 0, 1} THEN "e" ELSE TF(c = -1 \/ (eq /\ c = 0))
Equal(e, a, b) == IF a = 0 \/ b = 0 THEN "e"
                  ELSE IF a = b THEN "t"
                  ELSE IF IsL(e, a) /\ IsL(e, b) THEN TF(LitCmp(NodeAt(e, a), NodeAt(e, b)) = 0)
                  ELSE "f"
Neg(x) == CASE x = "t" -> "f" [] x = "f" -> "t" [] OTHER -> "e"
RECURSIVE Expr(_, _, _, _), Group(_, _, _), Elems(_, _, _, _, _)
Expr(e, env, m, x) ==
  LET a == Val(env, m, x.a)
      b == Val(env, m, x.b)
      sub(i) == Expr(e, env, m, x.es[i])
  IN CASE x.k = "eq" -> Equal(e, a, b)
       [] x.k = "ne" -> Neg(Equal(e, a, b))
       [] x.k = "lt" -> Less(e, a, b, FALSE)
       [] x.k = "le" -> Less(e, a, b, TRUE)
       [] x.k = "same" -> IF a = 0 \/ b = 0 THEN "e" ELSE TF(a = b)
       [] x.k = "iri" -> IF a = 0 THEN "e" ELSE TF(NodeAt(e, a).t = "iri")
       [] x.k = "blank" -> IF a = 0 THEN "e" ELSE TF(NodeAt(e, a).t = "bnode")
       [] x.k = "lit" -> IF a = 0 THEN "e" ELSE TF(IsL(e, a))
       [] x.k = "bound" -> TF(a # 0)
       [] x.k = "lang" -> IF ~IsL(e, a) THEN "e" ELSE TF(NodeAt(e, a).lang = x.tag)
       [] x.k = "dt" -> IF ~IsL(e, a) THEN "e" ELSE TF(NodeAt(e, a).lang = <<>> /\ NodeAt(e, a).dt = x.dt)
       [] x.k = "exists" -> TF(Group(e, m @@ env, x.g) # {})
       [] x.k = "nexists" -> TF(Group(e, m @@ env, x.g) = {})
       [] x.k = "not" -> Neg(sub(1))
       [] x.k = "and" -> IF sub(1) = "f" \/ sub(2) = "f" THEN "f" ELSE IF sub(1) = "t" /\ sub(2) = "t" THEN "t" ELSE "e"
       [] x.k = "or" -> IF sub(1) = "t" \/ sub(2) = "t" THEN "t" ELSE IF sub(1) = "f" /\ sub(2) = "f" THEN "f" ELSE "e"

Holds(e, env, m, fs) == \A i \in 1..Len(fs) : Expr(e, env, m, fs[i]) = "t"
(* the elements of a group in their order, then its filters *)
Extend(env, m, x, v) == LET a == Val(env, m, x) IN IF a = 0 THEN m ELSE m @@ (v :> a)
LeftJoin(e, env, M, g) ==
  LET N == Group(e, env, [g EXCEPT !.fs = <<>>])
      with(m) == {x \in Join({m}, N) : Holds(e, env, x, g.fs)}
  IN UNION {IF with(m) = {} THEN {m} ELSE with(m) : m \in M}
Restrict(m, V) == [v \in DOMAIN m \intersect V |-> m[v]]
Elem(e, env, M, x) ==
  CASE x.k = "triple" -> Join(M, TripleSol(e, env, x))
    [] x.k = "group" -> Join(M, Group(e, env, x.g))
    [] x.k = "union" -> Join(M, UNION {Group(e, env, x.gs[i]) : i \in 1..Len(x.gs)})
    [] x.k = "opt" -> LeftJoin(e, env, M, x.g)
    [] x.k = "minus" -> M \ {m \in M : \E n \in Group(e, env, x.g) : DOMAIN m \intersect DOMAIN n # {} /\ Compatible(m, n)}
    [] x.k = "bind" -> {Extend(env, m, x.a, x.v) : m \in M}
    [] x.k = "values" -> Join(M, {x.v :> x.ns[i] : i \in 1..Len(x.ns)})
    [] x.k = "select" -> Join(M, {Restrict(m, Rng(x.vars)) : m \in Group(e, env, x.g)})
Elems(e, env, M, ps, i) == IF i > Len(ps) THEN M ELSE Elems(e, env, Elem(e, env, M, ps[i]), ps, i + 1)
Group(e, env, g) == {m \in Elems(e, env, {<<>>}, g.ps, 1) : Holds(e, env, m, g.fs)}
(* the solutions of a query, projected *)
Solutions(e, env, q) == {Restrict(m, Rng(q.vars)) : m \in Group(e, env, q.g)}
==============================================================================
