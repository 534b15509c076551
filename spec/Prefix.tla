------------------------------- MODULE Prefix --------------------------------
(* Prefix maps: a map from aliases to namespaces, its updates and what can be  *)
(* observed of it (P01). Strings are sequences of code points. The state is    *)
(* st[g], g \in 1..2, each a function from aliases to namespaces.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == <<>> @@ <<>>                      \* the function with an empty domain
COLON == 58
LT == 60
GT == 62

Put(m, a, i) == (a :> i) @@ m
Drop(m, a) == [x \in DOMAIN m \ {a} |-> m[x]]

\* entries is a sequence of <<alias, namespace>>: later declarations replace earlier ones
RECURSIVE PutAll(_, _, _)
PutAll(m, es, k) == IF k > Len(es) THEN m ELSE PutAll(Put(m, es[k][1], es[k][2]), es, k + 1)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Rest(s, p) == SubSeq(s, Len(p) + 1, Len(s))

Unbound == [k |-> "unbound"]
Iri(i) == [k |-> "iri", v |-> i]

Resolve(m, a, l) == IF a \in DOMAIN m THEN Iri(m[a] \o l) ELSE Unbound

\* the alias of a prefixed name ends at its first colon
FirstColon(s) == CHOOSE k \in 1..Len(s) : s[k] = COLON /\ \A j \in 1..(k - 1) : s[j] # COLON
ResolveName(m, s) == LET k == FirstColon(s) IN Resolve(m, SubSeq(s, 1, k - 1), SubSeq(s, k + 1, Len(s)))

Matching(m, i) == {a \in DOMAIN m : StartsWith(i, m[a])}
Longest(m, i) == {a \in Matching(m, i) : \A b \in Matching(m, i) : Len(m[b]) <= Len(m[a])}
Names(m, i) == {a \o <<COLON>> \o Rest(i, m[a]) : a \in Longest(m, i)}
Locals(m, i) == {Rest(i, m[a]) : a \in Longest(m, i)}
Full(i) == <<LT>> \o i \o <<GT>>

\* theorem checked by MCPrefix: an abbreviation resolves to the IRI it abbreviates, and no other
\* declared namespace would have left a shorter local part
RoundTrip(m, i) == /\ \A n \in Names(m, i) : ResolveName(m, n) = Iri(i)
                   /\ \A a \in Matching(m, i) : \A l \in Locals(m, i) : Len(l) <= Len(Rest(i, m[a]))
                   /\ (Names(m, i) = {}) = (Matching(m, i) = {})

Entries(m) == {<<a, m[a]>> : a \in DOMAIN m}
SeqSet(s) == {s[k] : k \in DOMAIN s}

Apply(st, op) ==
  LET g == op.g
      m == st[g]
  IN CASE op.op = "add" -> [st EXCEPT ![g] = Put(m, op.a, op.i)]
       [] op.op = "remove" -> [st EXCEPT ![g] = Drop(m, op.a)]
       [] op.op = "merge" -> [st EXCEPT ![g] = PutAll(m, op.es, 1)]
       [] op.op = "merge_with" -> [st EXCEPT ![g] = st[3 - g] @@ m]
       [] op.op = "set" -> [st EXCEPT ![g] = PutAll(Empty, op.es, 1)]
       [] op.op = "clone" -> [st EXCEPT ![g] = st[3 - g]]
       [] op.op = "new" -> [st EXCEPT ![g] = Empty]
       [] OTHER -> st

\* does the observed value v of op agree with the specification in state st (before) ?
Agrees(st, op, v) ==
  LET m == st[op.g]
  IN CASE op.op = "remove" -> v = (IF op.a \in DOMAIN m THEN Iri(m[op.a]) ELSE Unbound)
       [] op.op = "find" -> v = (IF op.a \in DOMAIN m THEN Iri(m[op.a]) ELSE Unbound)
       [] op.op = "resolve_local" -> v = Resolve(m, op.a, op.l)
       [] op.op = "resolve" -> v = ResolveName(m, op.s)
       [] op.op = "qualify" -> IF Names(m, op.i) = {} THEN v = Full(op.i) ELSE v \in Names(m, op.i)
       [] op.op = "qualify_optional" -> IF Names(m, op.i) = {} THEN v = Unbound ELSE v.k = "iri" /\ v.v \in Names(m, op.i)
       [] op.op = "qualify_local" -> IF Names(m, op.i) = {} THEN v = Unbound ELSE v.k = "iri" /\ v.v \in Locals(m, op.i)
       [] op.op = "round_trip" -> v = (IF Names(m, op.i) = {} THEN Unbound ELSE Iri(op.i))
       [] op.op = "entries" -> SeqSet(v) = Entries(m) /\ Len(v) = Cardinality(DOMAIN m)
       [] op.op = "aliases" -> SeqSet(v) = DOMAIN m /\ Len(v) = Cardinality(DOMAIN m)
       [] op.op = "len" -> v = Cardinality(DOMAIN m)
       [] op.op = "eq" -> v.eq = (st[1] = st[2]) /\ (v.eq => v.hash)
       [] OTHER -> TRUE
==============================================================================
