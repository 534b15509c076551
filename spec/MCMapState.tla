----------------------------- MODULE MCMapState -----------------------------
(* A materializer with a list of nodes still to be described, taken in any order: it ends, *)
(* with the graph of the specification or, for a recursive schema, with an error. If every *)
(* constraint has a bound key and the constraints of each shape have different predicates, *)
(* the new graph conforms to the schema.                                                   *)
EXTENDS MapState

CONSTANTS Keys, MaxTC
VARIABLES sch, st, todo, ts, fresh, status
vars == <<sch, st, todo, ts, fresh, status>>

AnyValue == [k |-> "any"]
RefTo(i) == [k |-> "ref", i |-> i]
Term(k, i) == [t |-> k, s |-> <<i>>, dt |-> "", lang |-> <<>>]
Values == {Term("iri", 1), Term("iri", 2)}
Acts == {<<>>} \cup {<<k>> : k \in Keys} \cup {<<1, 2>>}
TCs == {[p |-> p, inv |-> FALSE, ve |-> AnyValue, acts |-> a] : p \in {1, 2}, a \in Acts}
       \cup {[p |-> p, inv |-> FALSE, ve |-> RefTo(i), acts |-> <<>>] : p \in {1, 2}, i \in {1, 2}}
Sym(v) == [k |-> "sym", v |-> v, min |-> 1, max |-> 1]
ShapeOf(tcs, op) == [k |-> "shape", closed |-> FALSE, extra |-> <<>>, ext |-> <<>>, tcs |-> tcs,
                     te |-> IF tcs = <<>> THEN [k |-> "empty"] ELSE IF Len(tcs) = 1 THEN Sym(1) ELSE [k |-> op, es |-> [i \in 1..Len(tcs) |-> Sym(i)]]]
SmallShapes(n) == {ShapeOf(tcs, op) : tcs \in UNION {[1..m -> TCs] : m \in 0..n}, op \in {"and", "or"}}
Decl(e) == [abs |-> FALSE, e |-> e]
States == {<<>>, <<<<1, Term("iri", 1)>>>>} \cup {<<<<1, Term("iri", 1)>>, <<2, v>>>> : v \in Values}

Root == Term("iri", 9)
Start == RefTo(1)
Init == /\ \E a \in SmallShapes(MaxTC), b \in SmallShapes(1) : sch = [shapes |-> <<Decl(a), Decl(b)>>]
        /\ st \in States
        /\ todo = {[n |-> Root, e |-> Start, path |-> {}]} /\ ts = <<>> /\ fresh = 0 /\ status = "run"
Value(k) == st[CHOOSE x \in 1..Len(st) : st[x][1] = k][2]
Bound(k) == \E x \in 1..Len(st) : st[x][1] = k
Add(s, t) == IF t \in Rng(s) THEN s ELSE Append(s, t)
RECURSIVE AddAll(_, _), Walk(_, _, _, _)
AddAll(s, l) == IF l = <<>> THEN s ELSE AddAll(Add(s, l[1]), Tail(l))
(* the constraints of an expression one after another; a = [ts, todo, fresh] *)
Walk(w, e, j, a) ==
  IF j > Len(e.tcs) THEN a
  ELSE LET tc == e.tcs[j]
           nb == Term("bnode", a.fresh + 1)
           keys == SelectSeq(tc.acts, LAMBDA k : Bound(k))
       IN Walk(w, e, j + 1,
            IF tc.ve.k = "ref" THEN [ts |-> Append(a.ts, <<w.n, tc.p, nb>>), todo |-> a.todo \cup {[n |-> nb, e |-> tc.ve, path |-> w.path]}, fresh |-> a.fresh + 1]
            ELSE [a EXCEPT !.ts = AddAll(@, [i \in 1..Len(keys) |-> <<w.n, tc.p, Value(keys[i])>>])])
Step(w) ==
  IF w.e.k = "ref" THEN
    IF w.e.i \in w.path THEN status' = "error" /\ UNCHANGED <<sch, st, todo, ts, fresh>>
    ELSE /\ todo' = (todo \ {w}) \cup {[w EXCEPT !.e = sch.shapes[w.e.i].e, !.path = @ \cup {w.e.i}]}
         /\ UNCHANGED <<sch, st, ts, fresh, status>>
  ELSE LET a == Walk(w, w.e, 1, [ts |-> ts, todo |-> todo \ {w}, fresh |-> fresh])
       IN ts' = a.ts /\ todo' = a.todo /\ fresh' = a.fresh /\ UNCHANGED <<sch, st, status>>
Finish == todo = {} /\ status = "run" /\ status' = "done" /\ UNCHANGED <<sch, st, todo, ts, fresh>>
Next == (status = "run" /\ \E w \in todo : Step(w)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

GraphOf == LET ns == SetToSeq({Root} \cup UNION {{ts[i][1], ts[i][3]} : i \in 1..Len(ts)})
               at(t) == CHOOSE i \in 1..Len(ns) : ns[i] = t
           IN [root |-> at(Root), g |-> [nodes |-> ns, arcs |-> [i \in 1..Len(ts) |-> <<at(ts[i][1]), ts[i][2], at(ts[i][3])>>]]]
Simple == \A i \in 1..2 : LET e == sch.shapes[i].e IN
            /\ e.te.k # "or"
            /\ \A j \in 1..Len(e.tcs) : /\ e.tcs[j].ve.k = "any" => Len(e.tcs[j].acts) = 1 /\ Bound(e.tcs[j].acts[1])
                                        /\ \A k \in 1..Len(e.tcs) : e.tcs[j].p = e.tcs[k].p => j = k
IsRecursive == Recursive(sch, Start, {})
RightGraph == status = "done" => ~IsRecursive /\ GraphRight(sch, st, Start, <<Root>>, ts)
RightError == status = "error" => IsRecursive
Conforms == status = "done" /\ Simple => LET x == GraphOf IN <<x.root, 1>> \in Typing(sch, x.g, FALSE)
Ends == <>(status # "run")
=============================================================================
