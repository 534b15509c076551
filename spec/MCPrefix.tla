------------------------------ MODULE MCPrefix -------------------------------
(* Every history of declarations, removals and merges over a small alphabet:  *)
(* abbreviation and resolution are inverse in every reachable map, and a      *)
(* merge is the declaration of its entries in order.                          *)
EXTENDS Prefix

A == {<<>>, <<97>>, <<97, 98>>}
I == {<<104>>, <<104, 47>>, <<104, 47, 97>>, <<104, 58>>, <<105>>}
X == I \cup {<<104, 47, 97, 58, 98>>, <<104, 58, 58>>, <<106, 47>>}
VARIABLE st
Init == st = [g \in 1..2 |-> Empty]
Ops == [op: {"add"}, g: 1..2, a: A, i: I] \cup [op: {"remove"}, g: 1..2, a: A] \cup [op: {"merge_with", "clone", "new"}, g: 1..2]
Next == \E op \in Ops : st' = Apply(st, op)
Spec == Init /\ [][Next]_st
Inv == \A g \in 1..2 : \A i \in X : RoundTrip(st[g], i)
Frame == [][\A g \in 1..2 : \A a \in A : (a \in DOMAIN st[g] /\ a \notin DOMAIN st'[g]) => Cardinality(DOMAIN st'[g]) < Cardinality(DOMAIN st[g]) \/ st'[g] = st[3 - g]]_st
MergeInOrder == \A e1, e2 \in A \X I : PutAll(st[1], <<e1, e2>>, 1) = PutAll(PutAll(Empty, <<e1, e2>>, 1) @@ st[1], <<>>, 1)
==============================================================================
