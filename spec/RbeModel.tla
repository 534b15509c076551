------------------------------ MODULE RbeModel ------------------------------
(* Design-level theorems, checked exhaustively: on every expression of a      *)
(* bounded grammar and every bag, (1) the derivative algorithm decides the    *)
(* language whatever the order of the symbols, (2) the interval algorithm     *)
(* decides it on single-occurrence expressions.      *)
EXTENDS Rbe, TLC
CONSTANTS MaxCount, Deep
VARIABLES e, s      \* an expression and a sequence of symbols consumed so far

Cards == {<<1, 1>>, <<0, 1>>, <<0, -1>>, <<2, 3>>}
Leaf == {[k |-> "sym", v |-> v, min |-> c[1], max |-> c[2]] : v \in {1, 2}, c \in Cards} \cup {EmptyE}
Un(S) == {[k |-> u, e |-> x] : u \in {"star", "plus", "opt"}, x \in S}
         \cup {[k |-> "rep", e |-> x, min |-> c[1], max |-> c[2]] : x \in S, c \in {<<2, 2>>, <<0, 2>>, <<2, -1>>}}
Bin(S, R) == {[k |-> b, es |-> <<x, y>>] : b \in {"and", "or"}, x \in S, y \in R}
L1 == Leaf \cup Un(Leaf) \cup Bin(Leaf, Leaf)
Exprs == IF Deep THEN L1 \cup Un(L1) \cup Bin(Un(Leaf), Leaf) \cup Bin(Bin(Leaf, Leaf), Leaf) ELSE L1 \cup Un(Bin(Leaf, Leaf))

Init == e \in Exprs /\ s = <<>>
Add(x) == Len(s) < MaxCount /\ s' = Append(s, x) /\ UNCHANGED e
Next == \E x \in {1, 2} : Add(x)
Spec == Init /\ [][Next]_<<e, s>>

B == [x \in {1, 2} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
InLangAll == LET D == SymsOf(e) IN (\A x \in {1,2} : x \notin D => B[x] = 0) /\ InLang(e, [x \in D |-> B[x]])
DerivDecides == DerivAccepts(e, s) = InLangAll
IntervalDecides == (SingleOcc(e) /\ \A x \in {1, 2} : x \notin SymsOf(e) => B[x] = 0)
                     => (IntervalAccepts(e, B) = InLangAll)
=============================================================================
