-------------------------------- MODULE Store --------------------------------
(* The RDF store as a machine whose state is a set of triples per handle.       *)
(* Terms are numbers: > 0 a term of the pool, < 0 an anonymous blank node       *)
(* introduced by an operation, > 1000000 (observations only) a blank node whose  *)
(* label is not in the pool. A store may be cloned: handles are independent.     *)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[i] : i \in 1..Len(s)}
Unknown == 1000000

(* blank nodes are opaque: a set of tuples is compared up to a renaming of the anonymous ones *)
AnonW(S) == {x \in UNION {Rng(t) : t \in S} : x < 0}
AnonO(S) == {x \in UNION {Rng(t) : t \in S} : x > Unknown}
SameUpToAnon(want, obs) ==
  LET A == AnonW(want)  B == AnonO(obs)
  IN /\ Cardinality(want) = Cardinality(obs)
     /\ Cardinality(A) = Cardinality(B)
     /\ \E f \in [A -> B] : /\ \A x, y \in A : x # y => f[x] # f[y]
                            /\ {[i \in 1..Len(t) |-> IF t[i] < 0 THEN f[t[i]] ELSE t[i]] : t \in want} = obs
(* a listing mentions every member once *)
Listing(want, seq) == Len(seq) = Cardinality(Rng(seq)) /\ SameUpToAnon(want, Rng(seq))

------------------------------------------------------------------------------
(* the state: [h -> set of triples] and the updates *)
Fresh(k, ts) == {[i \in 1..3 |-> IF t[i] < 0 THEN t[i] - 100 * k ELSE t[i]] : t \in Rng(ts)}
(* a generated blank node is a new one; the label it gets may be one that a document (elsewhere) uses *)
Generated(o) == IF o.fail = "" /\ o.v \in Int /\ o.v <= Unknown THEN o.v ELSE -1
Update(st, k, op, ev) ==
  CASE op.op = "new"     -> [st EXCEPT ![op.g] = {}]
    [] op.op = "clone"   -> [st EXCEPT ![op.g] = st[op.from]]
    [] op.op = "reload"  -> [st EXCEPT ![op.g] = {[i \in 1..3 |-> IF t[i] \in Rng(ev.bnodes) THEN -1000 * k - t[i] ELSE t[i]] : t \in st[op.from]}]   \* labels are not kept
    [] op.op = "merge"   -> [st EXCEPT ![op.g] = @ \cup Fresh(k, op.ts)]
    [] op.op \in {"add", "add_ref"} -> [st EXCEPT ![op.g] = @ \cup {<<op.s, op.p, op.o>>}]
    [] op.op = "type"    -> [st EXCEPT ![op.g] = @ \cup {<<op.s, ev.type, op.o>>}]
    [] op.op = "remove"  -> [st EXCEPT ![op.g] = @ \ {<<op.s, op.p, op.o>>}]
    [] op.op = "bnode"   -> [st EXCEPT ![op.g] = @ \cup Fresh(k, <<<<Generated(ev.obs[k]), op.p, op.o>>>>)]
    [] OTHER -> st

------------------------------------------------------------------------------
(* the observations *)
Fits(x, pos) == pos = 0 \/ x = pos
Match(G, op) == {t \in G : Fits(t[1], op.s) /\ Fits(t[2], op.p) /\ Fits(t[3], op.o)}

(* basic graph patterns: positions > 0 are terms, -1, -2, -3 variables *)
Vars(ps) == {x \in UNION {Rng(p) : p \in ps} : x < 0}
Terms3(G) == UNION {Rng(t) : t \in G}
RECURSIVE Solve(_, _, _)
Bind(b, p, t) ==   \* extend binding b (a set of <<var, value>>) so that pattern p is triple t; {} when impossible
  LET add == {<<p[i], t[i]>> : i \in {j \in 1..3 : p[j] < 0}}
      all == b \cup add
  IN IF /\ \A i \in 1..3 : p[i] > 0 => p[i] = t[i]
        /\ \A x, y \in all : x[1] = y[1] => x[2] = y[2]
     THEN {all} ELSE {}
Solve(G, ps, bs) == IF ps = <<>> THEN bs
                    ELSE Solve(G, Tail(ps), UNION {UNION {Bind(b, ps[1], t) : t \in G} : b \in bs})
Row(b, vs) == [i \in 1..Len(vs) |-> (CHOOSE x \in b : x[1] = vs[i])[2]]
Select(G, op) == {Row(b, op.vars) : b \in Solve(G, op.pat, {{}})}

(* does an observation agree with the state (before and after the step) *)
Col(T, i) == {<<t[i]>> : t \in T}
Sing(seq) == [i \in 1..Len(seq) |-> <<seq[i]>>]
Agrees(before, G, op, ev, o) ==
  CASE op.op = "bnode" -> o > Unknown \/ (o \in Rng(ev.bnodes) /\ o \notin Terms3(before))
    [] op.op \in {"triples", "match", "shortcut"} -> Listing(Match(G, op), o)
    [] op.op = "out" -> Listing({t \in G : t[1] = op.s}, o)
    [] op.op = "in" -> Listing({t \in G : t[3] = op.o}, o)
    [] op.op = "contains" -> o = (Match(G, op) # {})
    [] op.op = "out_list" -> /\ Listing({t \in G : t[1] = op.s /\ t[2] \in Rng(op.ps)}, o.arcs)
                             /\ Rng(o.rest) = {t[2] : t \in {x \in G : x[1] = op.s /\ x[2] \notin Rng(op.ps)}}
    [] op.op = "in_list" -> Listing({t \in G : t[3] = op.o /\ t[2] \in Rng(op.ps)}, o)
    [] op.op \in {"objects", "async_objects"} -> Listing(Col({t \in G : t[1] = op.s /\ t[2] = op.p}, 3), Sing(o))
    [] op.op \in {"subjects", "async_subjects"} -> Listing(Col({t \in G : t[3] = op.o /\ t[2] = op.p}, 1), Sing(o))
    [] op.op = "async_preds" -> Listing(Col({t \in G : t[1] = op.s}, 2), Sing(o))
    [] op.op = "instances" -> Listing(Col({t \in G : t[2] = ev.type /\ t[3] = op.o}, 1), Sing(o))
    [] op.op = "len" -> o = <<Cardinality(G), IF G = {} THEN 1 ELSE 0, Cardinality(G)>>
    [] op.op = "select" -> Listing(Select(G, op), o)
    [] op.op = "ask" -> o = (Solve(G, op.pat, {{}}) # {})
    [] op.op = "construct" -> \* the template is the first pattern
         LET sols == Solve(G, op.pat, {{}})
         IN SameUpToAnon({[i \in 1..3 |-> IF op.pat[1][i] < 0 THEN (CHOOSE x \in b : x[1] = op.pat[1][i])[2] ELSE op.pat[1][i]] : b \in sols}, Rng(o))
    [] OTHER -> TRUE
==============================================================================
