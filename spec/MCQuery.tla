------------------------------- MODULE MCQuery -------------------------------
(* An evaluator that answers a query one solution at a time: it takes the patterns of a group in any   *)
(* order, extends one row after the other with one matching arc, keeps the rows that an OPTIONAL does  *)
(* not extend, filters as soon as a filter's variable is bound or at the end, projects, and drops rows *)
(* it has shown before. Whatever it chooses, it ends with the rows that Query.tla gives.               *)
EXTENDS Query
CONSTANTS N, MaxArcs
VARIABLES data, query, todo, rows, phase, shown
vars == <<data, query, todo, rows, phase, shown>>

Ix == 1..N
E0(A) == [A |-> A, nodes |-> [i \in 1..N + 2 |-> [t |-> "iri", s |-> <<i>>, dt |-> "", lang |-> <<>>]], pnodes |-> <<N + 1, N + 2>>]
Var(x) == [k |-> "v", v |-> x]
Con(n) == [k |-> "c", n |-> n]
Pred(i) == [k |-> "p", v |-> i]
T(s, p, o) == [k |-> "triple", s |-> s, p |-> p, o |-> o]
Grp(ps, fs) == [ps |-> ps, fs |-> fs]
Eq(op, a, b) == [k |-> op, a |-> a, b |-> b, es |-> <<>>]
X == Var("x") Y == Var("y") Z == Var("z")
Arcs == Ix \X {1, 2} \X Ix
Datas == {A \in SUBSET Arcs : Cardinality(A) <= MaxArcs}
Q(g, vs, d) == [g |-> g, vars |-> vs, distinct |-> d, limit |-> -1, offset |-> 0, order |-> 0, desc |-> FALSE, tpl |-> <<T(X, Con(N + 1), Y)>>]
Bodies == {<<T(X, Pred(1), Y)>>, <<T(X, Pred(1), Y), T(Y, Pred(2), Z)>>, <<T(X, Pred(1), Y), T(X, Pred(2), Y)>>, <<T(X, Pred(1), X), T(Z, Pred(2), Con(1))>>,
           <<T(X, Var("p"), Y), T(Y, Pred(1), X)>>, <<T(X, Pred(1), Y), T(Con(1), Pred(2), Z), T(Y, Pred(1), Z)>>}
Opts == {<<>>, <<[k |-> "opt", g |-> Grp(<<T(X, Pred(2), Var("w"))>>, <<>>)]>>, <<[k |-> "minus", g |-> Grp(<<T(X, Pred(2), Var("w"))>>, <<>>)]>>}
Filters == {<<>>, <<Eq("ne", X, Y)>>, <<Eq("eq", X, Con(1))>>}
Queries == {Q(Grp(b \o o, f), vs, d) : b \in Bodies, o \in Opts, f \in Filters, vs \in {<<"x">>, <<"y", "x">>, <<"x", "w">>}, d \in BOOLEAN}

Init == data \in Datas /\ query \in Queries /\ rows = {<<>>} /\ phase = "join" /\ shown = <<>>
        /\ todo = {i \in 1..Len(query.g.ps) : query.g.ps[i].k = "triple"}
(* the patterns are joined in any order *)
Joined ==
  /\ phase = "join" /\ todo # {}
  /\ \E i \in todo :
       /\ todo' = todo \ {i}
       /\ rows' = UNION {{m @@ n : n \in {k \in TripleSol(E0(data), NoEnv, query.g.ps[i]) : Compatible(m, k)}} : m \in rows}
  /\ UNCHANGED <<data, query, phase, shown>>
Last == query.g.ps[Len(query.g.ps)]
Extended ==
  /\ phase = "join" /\ todo = {}
  /\ phase' = "filter"
  /\ rows' = IF Last.k = "triple" THEN rows
             ELSE LET match(m) == {a[3] : a \in {b \in data : b[2] = 2 /\ b[1] = m["x"]}}
                  IN IF Last.k = "minus" THEN {m \in rows : match(m) = {}}
                     ELSE UNION {IF match(m) = {} THEN {m} ELSE {m @@ ("w" :> o) : o \in match(m)} : m \in rows}
  /\ UNCHANGED <<data, query, todo, shown>>
Keep(m, f) == CASE f.k = "eq" -> m["x"] = 1 [] f.k = "ne" -> "y" \in DOMAIN m /\ m["x"] # m["y"]
Filtered ==
  /\ phase = "filter"
  /\ phase' = "show"
  /\ rows' = {m \in rows : \A i \in 1..Len(query.g.fs) : Keep(m, query.g.fs[i])}
  /\ UNCHANGED <<data, query, todo, shown>>
(* solutions are shown in any order *)
Shown ==
  /\ phase = "show" /\ rows # {}
  /\ LET m == CHOOSE x \in rows : TRUE
         r == RowOf(query, m)
     IN /\ rows' = rows \ {m}
        /\ shown' = IF query.distinct /\ \E i \in 1..Len(shown) : shown[i] = r THEN shown ELSE Append(shown, r)
  /\ UNCHANGED <<data, query, todo, phase>>
Next == Joined \/ Extended \/ Filtered \/ Shown
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == phase = "show" /\ rows = {}
(* the judge accepts every complete answer, and no incomplete one *)
Right == Done => SelectRight(E0(data), query, shown)
AskSame == Done => AskRight(E0(data), query, shown # <<>>)
Incomplete == (Done /\ shown # <<>> /\ query.distinct) => ~SelectRight(E0(data), query, Tail(shown)) /\ ~SelectRight(E0(data), query, shown \o <<shown[1]>>)
Limits == Done /\ query.distinct => \A l \in 0..2, o \in 0..2 :
             SelectRight(E0(data), [query EXCEPT !.limit = l, !.offset = o], SubSeq(shown, o + 1, Smaller(o + l, Len(shown))))
Graph == Done => \A t \in Built(E0(data), query) : t[2] = N + 1
Ends == <>Done
==============================================================================
