-------------------------------- MODULE Pg ------------------------------------
(* Property graph types (PG-Schema with property constraints).                 *)
(* An element is a set L of labels and a record R: a function from keys to     *)
(* sets of values. A value is [t, i, s]: "s" string s, "i" integer i, "d" date *)
(* i = yyyymmdd, "b" Boolean i. Types of elements (F):                         *)
(*   empty; label l; ref t; opt a; and a b; or a b; open a; content a p open   *)
(* property lists (P): each a b; one a b; prop key ty; optprop key ty; empty   *)
(* property types (T): any; prim t min max; inter a b; union a b; cond c       *)
(* conditions (C): true false and or not eq gt ge lt le regex                  *)
EXTENDS Terms

(* conditions on one value: "t", "f" or "e" when it is not defined for the     *)
(* value; strict: an undefined part makes the whole undefined                   *)
RECURSIVE Check(_, _, _)
B(b) == IF b THEN "t" ELSE "f"
Ordered(c, v) == c.v.t = v.t /\ v.t \in {"i", "d"}
Check(c, v, strict) ==
  CASE c.k = "true" -> "t"
    [] c.k = "false" -> "f"
    [] c.k = "eq" -> B(v = c.v)
    [] c.k \in {"gt", "ge", "lt", "le"} ->
         IF ~Ordered(c, v) THEN "e"
         ELSE B(CASE c.k = "gt" -> v.i > c.v.i [] c.k = "ge" -> v.i >= c.v.i [] c.k = "lt" -> v.i < c.v.i [] OTHER -> v.i <= c.v.i)
    [] c.k = "regex" -> IF v.t # "s" THEN "e" ELSE B(PatternMatch(c.pat, v.s))
    [] c.k = "not" -> LET x == Check(c.a, v, strict) IN CASE x = "t" -> "f" [] x = "f" -> "t" [] OTHER -> "e"
    [] c.k \in {"and", "or"} ->
         LET x == Check(c.a, v, strict)
             y == Check(c.b, v, strict)
             z == IF c.k = "and" THEN "f" ELSE "t"      \* the value that decides
         IN IF strict /\ "e" \in {x, y} THEN "e"
            ELSE IF z \in {x, y} THEN z ELSE IF "e" \in {x, y} THEN "e" ELSE B(z = "f")

RECURSIVE TypeOk(_, _, _)
TypeOk(ty, vs, strict) ==
  CASE ty.k = "any" -> TRUE
    [] ty.k = "prim" -> /\ Cardinality(vs) >= ty.min /\ (ty.max = -1 \/ Cardinality(vs) <= ty.max)
                        /\ \A v \in vs : v.t = ty.t
    [] ty.k = "inter" -> TypeOk(ty.a, vs, strict) /\ TypeOk(ty.b, vs, strict)
    [] ty.k = "union" -> TypeOk(ty.a, vs, strict) \/ TypeOk(ty.b, vs, strict)
    [] ty.k = "cond" -> \A v \in vs : Check(ty.c, v, strict) = "t"

(* The set that an expression denotes: base types [l, lo, r, ro]: labels, open *)
(* labels, a function from required keys to the types they have, open record.  *)
Base(l, r) == [l |-> l, lo |-> FALSE, r |-> r, ro |-> FALSE]
NoKeys == [k \in {} |-> [k |-> "any"]]
Both(r, s) == [k \in DOMAIN r \cup DOMAIN s |->
                 IF k \notin DOMAIN r THEN s[k] ELSE IF k \notin DOMAIN s THEN r[k] ELSE [k |-> "inter", a |-> r[k], b |-> s[k]]]
Combine(x, y) == [l |-> x.l \cup y.l, lo |-> x.lo \/ y.lo, r |-> Both(x.r, y.r), ro |-> x.ro \/ y.ro]
Product(X, Y) == { Combine(x, y) : x \in X, y \in Y }

RECURSIVE DenP(_), Den(_, _)
DenP(p) ==
  CASE p.k = "empty" -> {NoKeys}
    [] p.k = "prop" -> {[k \in {p.key} |-> p.ty]}
    [] p.k = "optprop" -> {[k \in {p.key} |-> p.ty], NoKeys}
    [] p.k = "each" -> { Both(x, y) : x \in DenP(p.a), y \in DenP(p.b) }
    [] p.k = "one" -> DenP(p.a) \cup DenP(p.b)
Den(sch, f) ==
  CASE f.k = "empty" -> {Base({}, NoKeys)}
    [] f.k = "label" -> {Base({f.l}, NoKeys)}
    [] f.k = "ref" -> Den(sch, sch[f.t].f)
    [] f.k = "opt" -> Den(sch, f.a) \cup {Base({}, NoKeys)}
    [] f.k = "and" -> Product(Den(sch, f.a), Den(sch, f.b))
    [] f.k = "or" -> Den(sch, f.a) \cup Den(sch, f.b)
    [] f.k = "open" -> { [x EXCEPT !.lo = TRUE] : x \in Den(sch, f.a) }
    [] f.k = "content" -> Product(Den(sch, f.a), { [Base({}, r) EXCEPT !.ro = f.open] : r \in DenP(f.p) })

InBase(b, L, R, strict) ==
  /\ IF b.lo THEN b.l \subseteq L ELSE b.l = L
  /\ DOMAIN b.r \subseteq DOMAIN R /\ (b.ro \/ DOMAIN b.r = DOMAIN R)
  /\ \A k \in DOMAIN b.r : TypeOk(b.r[k], R[k], strict)
Member(sch, f, L, R, strict) == \E b \in Den(sch, f) : InBase(b, L, R, strict)

(* references: every type named exists and none is defined in terms of itself  *)
RECURSIVE Refs(_)
Refs(f) == CASE f.k = "ref" -> {f.t}
             [] f.k \in {"opt", "open", "content"} -> Refs(f.a)
             [] f.k \in {"and", "or"} -> Refs(f.a) \cup Refs(f.b)
             [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(sch, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET next == UNION { Refs(sch[t].f) : t \in (todo \cap DOMAIN sch) }
       IN Reach(sch, next \ (seen \cup todo), seen \cup todo)
Uses(sch, f) == Reach(sch, Refs(f), {})
Cyclic(sch, f) == \E t \in Uses(sch, f) \cap DOMAIN sch : t \in Uses(sch, sch[t].f)
Missing(sch, f) == \E t \in Uses(sch, f) : t \notin DOMAIN sch
=============================================================================
