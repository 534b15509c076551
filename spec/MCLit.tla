------------------------------- MODULE MCLit -------------------------------
(* The order that the specification defines is an order: antisymmetric,         *)
(* transitive and independent of the lexical form, for all triples of a         *)
(* universe of literals of every kind.                                          *)
EXTENDS Literals
L(s, dt) == [t |-> "lit", s |-> s, dt |-> dt, lang |-> ""]
(* signs, leading zeros, points, exponents *)
NumLexs == { <<45, 48>>, <<48, 49>>, <<49, 46, 48>>, <<48, 46, 53, 48>>, <<45, 49, 46, 53>>, <<49, 48>>, <<49, 101, 49>>,
             INFs, NaNs, <<45>> \o INFs, <<120>> }
Dt(y, h, z) == <<50, 48, 50, 48 + y, 45, 48, 49, 45, 48, 49, 84, 48 + (h \div 10), 48 + (h % 10), 58, 48, 48, 58, 48, 48>> \o z
Tzs == { <<>>, <<90>>, <<43, 49, 52, 58, 48, 48>>, <<45, 48, 53, 58, 48, 48>> }
All == { L(s, dt) : s \in NumLexs, dt \in {"byte", "decimal", "double"} }
            \union { L(s, "boolean") : s \in {TrueS, FalseS, <<48>>, <<49>>} }
            \union { L(s, "string") : s \in {<<>>, <<65>>, <<65, 66>>, <<97>>} }
            \union { L(Dt(y, h, z), "dateTime") : y \in {0, 1}, h \in {0, 23}, z \in Tzs }
            \union { L(SubSeq(Dt(y, 0, <<>>), 1, 10) \o z, "date") : y \in {0, 1}, z \in Tzs }
Universe == { x \in All : WellFormed(x) \/ x = L(<<120>>, "byte") }
VARIABLES a, b, c, k
Init == a \in Universe /\ b = a /\ c = a /\ k = 0
Next == k = 0 /\ k' = 1 /\ b' \in Universe /\ c' \in Universe /\ a' = a
Spec == Init /\ [][Next]_<<a, b, c, k>>
C(x, y) == LitCmp(x, y)
Antisymmetric == C(a, b) = Inv3(C(b, a))
Reflexive == WellFormed(a) /\ ~(a.dt \in NumTypes /\ NumVal(a).k = "nan") => C(a, a) = 0
Transitive == /\ (C(a, b) = -1 /\ C(b, c) = -1 => C(a, c) = -1)
              /\ (C(a, b) = 0 /\ C(b, c) # 2 => C(a, c) = C(b, c))
KindsApart == C(a, b) # 2 => (a.dt = b.dt \/ (a.dt \in NumTypes /\ b.dt \in NumTypes))
AllowedIsSound == LitCmp(a, b) \in Allowed(a, b) /\ Allowed(b, a) = { Inv3(x) : x \in Allowed(a, b) }
=============================================================================
