-------------------------------- MODULE MCPg ----------------------------------
(* The set construction agrees with the meaning of the operators, for every    *)
(* expression of two operators over a small alphabet and every element:        *)
(* an element is in a & b when its labels and its keys can be split, with       *)
(* overlap, into an element of a and one of b; in a | b when it is in one of    *)
(* them; and in an open one when leaving out some labels or keys puts it in.    *)
EXTENDS Pg
IV(x) == [t |-> "i", i |-> x, s |-> <<>>]
T1 == [k |-> "prim", t |-> "i", min |-> 0, max |-> 1]
T2 == [k |-> "cond", c |-> [k |-> "gt", v |-> IV(1)]]
Ps == {[k |-> "empty"], [k |-> "prop", key |-> "x", ty |-> T1], [k |-> "optprop", key |-> "x", ty |-> T2],
       [k |-> "one", a |-> [k |-> "prop", key |-> "x", ty |-> T1], b |-> [k |-> "prop", key |-> "y", ty |-> T2]]}
E == [k |-> "empty"]
F0 == {E, [k |-> "label", l |-> "A"], [k |-> "label", l |-> "B"]}
Un(F) == F \cup [k: {"opt", "open"}, a: F] \cup [k: {"content"}, a: F, p: Ps, open: BOOLEAN]
Bin(F, G) == [k: {"and", "or"}, a: F, b: G]
VARIABLE f
Init == f \in Un(F0) \cup Bin(Un(F0), Un(F0)) \cup { [k |-> "open", a |-> g] : g \in Bin(F0, Un(F0)) }
Next == FALSE /\ UNCHANGED f
Spec == Init /\ [][Next]_f

Labels == SUBSET {"A", "B"}
Recs == UNION { [K -> {{}, {IV(1)}, {IV(2)}}] : K \in SUBSET {"x", "y"} }
Sub(R, K) == [k \in K |-> R[k]]
RECURSIVE AccP(_, _), Acc(_, _, _)
AccP(p, R) == CASE p.k = "empty" -> DOMAIN R = {}
                [] p.k = "prop" -> DOMAIN R = {p.key} /\ TypeOk(p.ty, R[p.key], TRUE)
                [] p.k = "optprop" -> DOMAIN R = {} \/ (DOMAIN R = {p.key} /\ TypeOk(p.ty, R[p.key], TRUE))
                [] p.k = "one" -> AccP(p.a, R) \/ AccP(p.b, R)
AccC(p, open, R) == IF open THEN \E K \in SUBSET DOMAIN R : AccP(p, Sub(R, K)) ELSE AccP(p, R)
Splits(S) == { <<a, b>> \in (SUBSET S) \X (SUBSET S) : a \cup b = S }
Acc(g, L, R) ==
  CASE g.k = "empty" -> L = {} /\ DOMAIN R = {}
    [] g.k = "label" -> L = {g.l} /\ DOMAIN R = {}
    [] g.k = "opt" -> Acc(g.a, L, R) \/ (L = {} /\ DOMAIN R = {})
    [] g.k = "or" -> Acc(g.a, L, R) \/ Acc(g.b, L, R)
    [] g.k = "open" -> \E M \in SUBSET L : Acc(g.a, M, R)
    [] g.k = "and" -> \E l \in Splits(L), k \in Splits(DOMAIN R) : Acc(g.a, l[1], Sub(R, k[1])) /\ Acc(g.b, l[2], Sub(R, k[2]))
    [] g.k = "content" -> \E k \in Splits(DOMAIN R) : Acc(g.a, L, Sub(R, k[1])) /\ AccC(g.p, g.open, Sub(R, k[2]))
Agree == \A L \in Labels : \A R \in Recs : Member([t \in {} |-> E], f, L, R, TRUE) <=> Acc(f, L, R)
=============================================================================
