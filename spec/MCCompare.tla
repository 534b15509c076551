------------------------------ MODULE MCCompare ------------------------------
(* Every pair of shapes with at most three constraints over a small alphabet:  *)
(* the specified answer is a partition, swaps with the shapes, and is the only *)
(* one that is not rejected.                                                   *)
EXTENDS Compare, TLC
P == {"p", "q", "r"}
V == {[k |-> "any", x |-> ""], [k |-> "datatype", x |-> "d"]}
Shapes == UNION { [1..n -> [p: P, v: V]] : n \in 0..2 }
VARIABLES a, b
Init == a \in Shapes /\ b \in Shapes
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Subs(S) == SUBSET S
AnswerP(e, x, y) == [eq |-> e, p1 |-> x, p2 |-> y, descr |-> FALSE]
RECURSIVE Row(_)
Row(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<[p |-> p]>> \o Row(S \ {p})
Partition == /\ Both(a, b) \cup Only(a, b) \cup Only(b, a) = Props(a) \cup Props(b)
             /\ Both(a, b) \cap Only(a, b) = {} /\ Both(a, b) \cap Only(b, a) = {} /\ Only(a, b) \cap Only(b, a) = {}
Swap == Both(a, b) = Both(b, a) /\ (a = b => Only(a, b) = {})
Unique == \A e, x, y \in Subs(P) :
            (Wrong(a, b, AnswerP(Row(e), Row(x), Row(y))) = "") <=> (e = Both(a, b) /\ x = Only(a, b) /\ y = Only(b, a))
=============================================================================
