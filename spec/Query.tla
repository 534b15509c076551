-------------------------------- MODULE Query ---------------------------------
(* What a SPARQL query over the data answers: the rows of a SELECT, the truth of an ASK, *)
(* the triples of a CONSTRUCT. A row gives an index (0: unbound) per projected variable. *)
EXTENDS Sparql

NoEnv == [v \in {} |-> 0]
Cell(m, v) == IF v \in DOMAIN m THEN m[v] ELSE 0
RowOf(q, m) == [i \in 1..Len(q.vars) |-> Cell(m, q.vars[i])]
(* the distinct rows; without DISTINCT a row may be repeated *)
Rows(e, q) == {RowOf(q, m) : m \in Group(e, NoEnv, q.g)}
Smaller(a, b) == IF a < b THEN a ELSE b
Larger(a, b) == IF a > b THEN a ELSE b
Expected(n, limit, offset) == LET rest == Larger(0, n - offset) IN IF limit < 0 THEN rest ELSE Smaller(limit, rest)

(* q.distinct: no row twice; q.limit, q.offset: -1 and 0 when absent, only given with DISTINCT *)
SelectRight(e, q, rows) ==
  LET R == Rows(e, q)
  IN /\ Rng(rows) \subseteq R
     /\ q.distinct => \A i, j \in 1..Len(rows) : rows[i] = rows[j] => i = j
     /\ IF q.distinct THEN Len(rows) = Expected(Cardinality(R), q.limit, q.offset) ELSE Rng(rows) = R

(* rows in the order of an ORDER BY of a variable whose values are all integers or unbound: the unbound first *)
DigitOf(c) == c - 48
RECURSIVE NatOf(_, _, _)
NatOf(s, i, acc) == IF i > Len(s) THEN acc ELSE NatOf(s, i + 1, acc * 10 + DigitOf(s[i]))
Numeric(e, i) == i # 0 /\ IsL(e, i) /\ e.nodes[i].dt = "integer"
Class4(e, i) == CASE i = 0 -> 0 [] e.nodes[i].t = "bnode" -> 1 [] e.nodes[i].t = "iri" -> 2 [] OTHER -> 3
(* unbound < blank nodes < IRIs < literals; IRIs by their characters, integers by their values *)
RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF i > Len(b) THEN FALSE ELSE IF a[i] = b[i] THEN Lex(a, b, i + 1) ELSE a[i] < b[i]
NotAfter(e, a, b) ==
  IF Class4(e, a) # Class4(e, b) THEN Class4(e, a) < Class4(e, b)
  ELSE CASE Class4(e, a) = 2 -> Lex(e.nodes[a].s, e.nodes[b].s, 1)
         [] Numeric(e, a) /\ Numeric(e, b) -> NatOf(e.nodes[a].s, 1, 0) <= NatOf(e.nodes[b].s, 1, 0)
         [] OTHER -> TRUE
Sorted(e, q, rows) ==
  q.order = 0 \/ \A i \in 1..Len(rows) - 1 :
     IF q.desc THEN NotAfter(e, rows[i + 1][q.order], rows[i][q.order]) ELSE NotAfter(e, rows[i][q.order], rows[i + 1][q.order])

(* SELECT ?x (COUNT(DISTINCT ?y)) ... GROUP BY ?x: a row <<x, count>> per value of x, unbound values of y not counted *)
Counts(e, q) ==
  LET R == Rows(e, q)
  IN {<<x, Cardinality({r[2] : r \in {t \in R : t[1] = x /\ t[2] # 0}})>> : x \in {r[1] : r \in R}}
CountRight(e, q, rows) == Rng(rows) = Counts(e, q) /\ Len(rows) = Cardinality(Counts(e, q))

AskRight(e, q, answer) == answer = (Group(e, NoEnv, q.g) # {})

(* the template's triples under each solution; those with an unbound variable or a literal subject are left out *)
Built(e, q) ==
  {t \in UNION {{<<Val(NoEnv, m, q.tpl[i].s), Val(NoEnv, m, q.tpl[i].p), Val(NoEnv, m, q.tpl[i].o)>> : i \in 1..Len(q.tpl)} : m \in Group(e, NoEnv, q.g)} :
      t[1] # 0 /\ t[2] # 0 /\ t[3] # 0 /\ e.nodes[t[1]].t # "lit" /\ e.nodes[t[2]].t = "iri"}
ConstructRight(e, q, triples) == Rng(triples) = Built(e, q)
==============================================================================
