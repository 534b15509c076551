-------------------------------- MODULE Rbe --------------------------------
(* Regular bag expressions.                                                 *)
(* A bag is a function from a finite set of symbols (naturals) to naturals. *)
(* Expressions are records tagged by k:                                     *)
(*   [k |-> "empty"]                                                        *)
(*   [k |-> "sym", v, min, max]            max = -1 means unbounded         *)
(*   [k |-> "and", es] [k |-> "or", es]    es a sequence                    *)
(*   [k |-> "star", e] [k |-> "plus", e] [k |-> "opt", e]                   *)
(*   [k |-> "rep", e, min, max]                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Within(n, min, max) == n >= min /\ (max = -1 \/ n <= max)

RECURSIVE SymsOf(_)
SymsOf(e) ==
  CASE e.k = "empty" -> {}
    [] e.k = "sym"   -> {e.v}
    [] e.k \in {"and", "or"} -> UNION {SymsOf(e.es[i]) : i \in 1..Len(e.es)}
    [] OTHER -> SymsOf(e.e)

(* ---------------------------------------------------------------------------------------------- *)
(* Bags of symbols 1..7 with counts 0..7 are encoded as naturals, sixteen per symbol, so that bag   *)
(* union is addition (no carry: 7 + 7 < 16). SUB is the set of sub-bags of the bag being judged.    *)
Weight(v) == 16 ^ (v - 1)
Plus2(S, T, SUB) == {x + y : x \in S, y \in T} \cap SUB

RECURSIVE BagSubs(_, _)
BagSubs(b, D) ==  \* all encodings of bags c <= b over D
  IF D = {} THEN {0}
  ELSE LET v == CHOOSE v \in D : TRUE
       IN {n * Weight(v) + r : n \in 0..b[v], r \in BagSubs(b, D \ {v})}
RECURSIVE Encode(_, _)
Encode(b, D) == IF D = {} THEN 0 ELSE LET v == CHOOSE v \in D : TRUE IN b[v] * Weight(v) + Encode(b, D \ {v})

RECURSIVE StarOf(_, _, _), PowerOf(_, _, _), UpTo(_, _, _, _)
StarOf(R, S, SUB) == LET R2 == R \cup Plus2(R, S, SUB) IN IF R2 = R THEN R ELSE StarOf(R2, S, SUB)
PowerOf(S, n, SUB) == IF n = 0 THEN {0} ELSE Plus2(PowerOf(S, n - 1, SUB), S, SUB)
UpTo(R, S, n, SUB) == IF n = 0 THEN R ELSE UpTo(R \cup Plus2(R, S, SUB), S, n - 1, SUB)

(* Lang(e, SUB): the bags of SUB that e denotes *)
RECURSIVE Lang(_, _), LangAnd(_, _, _)
Lang(e, SUB) ==
  CASE e.k = "empty" -> {0}
    [] e.k = "sym"   -> {n * Weight(e.v) : n \in {m \in 0..7 : Within(m, e.min, e.max)}} \cap SUB
    [] e.k = "and"   -> LangAnd(e.es, {0}, SUB)
    [] e.k = "or"    -> UNION {Lang(e.es[i], SUB) : i \in 1..Len(e.es)}
    [] e.k = "opt"   -> {0} \cup Lang(e.e, SUB)
    [] e.k = "star"  -> StarOf({0}, Lang(e.e, SUB), SUB)
    [] e.k = "plus"  -> LET S == Lang(e.e, SUB) IN StarOf(S, S, SUB)
    [] e.k = "rep"   -> LET S == Lang(e.e, SUB)
                            P == PowerOf(S, e.min, SUB)
                        IN IF e.max = -1 THEN StarOf(P, S, SUB)
                           ELSE IF e.max < e.min THEN {} ELSE UpTo(P, S, e.max - e.min, SUB)
LangAnd(es, R, SUB) == IF es = <<>> THEN R ELSE LangAnd(Tail(es), Plus2(R, Lang(es[1], SUB), SUB), SUB)

InLang(e, b) == Encode(b, DOMAIN b) \in Lang(e, BagSubs(b, DOMAIN b))

(* the bag [D -> Nat] of a sequence of symbols *)
BagOfSeq(s, D) == [x \in D |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

(* Acceptance of a sequence of symbols: closed = every symbol must be used; open = symbols that *)
(* the expression does not mention are ignored.                                                 *)
Accepts(e, s, open) ==
  LET D == SymsOf(e)
      used == SelectSeq(s, LAMBDA x : x \in D)
  IN /\ (open \/ Len(used) = Len(s))
     /\ InLang(e, BagOfSeq(s, D))

(* ---------------------------------------------------------------------------------------------- *)
(* Model of the interval algorithm (rbe/src/rbe.rs `interval`). INF is any number above the bags.  *)
INF == 1000
Ival(n, m) == [n |-> n, m |-> m]
IsEmptyI(i) == i.n > i.m
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Cap(n) == IF n >= INF THEN INF ELSE n
RECURSIVE Nullable(_)
Nullable(e) == InLang(e, [x \in {} |-> 0])
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE Interval(_, _)
Interval(e, b) ==
  LET W(x) == IF x \in DOMAIN b THEN b[x] ELSE 0
      NoSyms == \A x \in SymsOf(e) : W(x) = 0
  IN CASE e.k = "empty" -> Ival(0, INF)
       [] e.k = "sym" ->
            LET w == W(e.v)
                lo == IF e.max = -1 THEN (IF w = 0 THEN 0 ELSE 1)
                      ELSE IF e.max = 0 THEN (IF w = 0 THEN 0 ELSE INF) ELSE CeilDiv(w, e.max)
                hi == IF e.min = 0 THEN INF ELSE w \div e.min
            IN Ival(lo, hi)
       [] e.k = "and" ->
            LET RECURSIVE Fold(_)
                Fold(i) == IF i = 0 THEN Ival(0, INF)
                           ELSE LET a == Fold(i-1) c == Interval(e.es[i], b)
                                IN Ival(Max2(a.n, c.n), Min2(a.m, c.m))
            IN Fold(Len(e.es))
       [] e.k = "or" ->
            LET RECURSIVE Fold(_)
                Fold(i) == IF i = 0 THEN Ival(0, 0)
                           ELSE LET a == Fold(i-1) c == Interval(e.es[i], b)
                                IN IF IsEmptyI(a) THEN a ELSE IF IsEmptyI(c) THEN Ival(1, 0)
                                   ELSE Ival(Cap(a.n + c.n), Cap(a.m + c.m))
            IN Fold(Len(e.es))
       [] e.k = "opt" ->
            LET c == Interval(e.e, b)
            IN IF IsEmptyI(c) THEN Ival(1, 0) ELSE Ival(c.n, INF)
       [] e.k = "star" ->
            IF NoSyms THEN Ival(0, INF)
            ELSE LET c == Interval(e.e, b) IN IF IsEmptyI(c) THEN c ELSE Ival(1, INF)
       [] e.k = "plus" ->
            IF NoSyms THEN (IF Nullable(e.e) THEN Ival(0, INF) ELSE Ival(0, 0))
            ELSE LET c == Interval(e.e, b) IN IF IsEmptyI(c) THEN c ELSE Ival(1, c.m)
       [] e.k = "rep" ->
            IF NoSyms THEN (IF e.min = 0 \/ Nullable(e.e) THEN Ival(0, INF) ELSE Ival(0, 0))
            ELSE LET c == Interval(e.e, b)
                 IN IF IsEmptyI(c) THEN c
                    ELSE Ival(IF e.max = -1 THEN Min2(c.n, 1) ELSE IF e.max = 0 THEN INF ELSE CeilDiv(c.n, e.max),
                              IF c.m >= INF \/ e.min = 0 THEN INF ELSE c.m \div e.min)

IntervalAccepts(e, b) == LET i == Interval(e, b) IN ~IsEmptyI(i) /\ i.n <= 1 /\ 1 <= i.m

(* Single-occurrence: the class on which the interval algorithm is exact *)
RECURSIVE SingleOcc(_)
SingleOcc(e) ==
  CASE e.k \in {"empty", "sym"} -> TRUE
    [] e.k \in {"and", "or"} ->
         /\ \A i \in 1..Len(e.es) : SingleOcc(e.es[i])
         /\ \A i, j \in 1..Len(e.es) : i # j => SymsOf(e.es[i]) \cap SymsOf(e.es[j]) = {}
    [] OTHER -> SingleOcc(e.e)

(* ---------------------------------------------------------------------------------------------- *)
(* Model of the derivative algorithm (one symbol at a time) with Fail                             *)
FailE == [k |-> "fail"]
EmptyE == [k |-> "empty"]
RECURSIVE DNullable(_)
DNullable(e) ==
  CASE e.k = "fail" -> FALSE
    [] e.k = "empty" -> TRUE
    [] e.k = "sym" -> e.min = 0
    [] e.k = "and" -> \A i \in 1..Len(e.es) : DNullable(e.es[i])
    [] e.k = "or" -> \E i \in 1..Len(e.es) : DNullable(e.es[i])
    [] e.k \in {"star", "opt"} -> TRUE
    [] e.k = "plus" -> DNullable(e.e)
    [] e.k = "rep" -> e.min = 0 \/ DNullable(e.e)

MkAnd2(a, b) == IF a.k = "fail" \/ b.k = "fail" THEN FailE
                ELSE IF a.k = "empty" THEN b ELSE IF b.k = "empty" THEN a
                ELSE [k |-> "and", es |-> <<a, b>>]
Dec(n) == IF n > 0 THEN n - 1 ELSE 0
DecMax(n) == IF n = -1 THEN -1 ELSE n - 1

(* derivative of e by x; Fail when x cannot be consumed by e *)
RECURSIVE Deriv(_, _)
Deriv(e, x) ==
  CASE e.k \in {"fail", "empty"} -> FailE
    [] e.k = "sym" -> IF e.v = x /\ e.max # 0
                      THEN [e EXCEPT !.min = Dec(e.min), !.max = DecMax(e.max)] ELSE FailE
    [] e.k = "and" ->
         LET alts == SelectSeq([i \in 1..Len(e.es) |->
                         LET d == Deriv(e.es[i], x)
                         IN IF d.k = "fail" THEN FailE ELSE [k |-> "and", es |-> [e.es EXCEPT ![i] = d]]],
                       LAMBDA a : a.k # "fail")
         IN IF alts = <<>> THEN FailE ELSE [k |-> "or", es |-> alts]
    [] e.k = "or" ->
         LET alts == SelectSeq([i \in 1..Len(e.es) |-> Deriv(e.es[i], x)], LAMBDA a : a.k # "fail")
         IN IF alts = <<>> THEN FailE ELSE [k |-> "or", es |-> alts]
    [] e.k = "opt" -> Deriv(e.e, x)
    [] e.k \in {"star", "plus"} -> MkAnd2(Deriv(e.e, x), [k |-> "star", e |-> e.e])
    [] e.k = "rep" -> IF e.max = 0 THEN FailE
                      ELSE MkAnd2(Deriv(e.e, x), [e EXCEPT !.min = Dec(e.min), !.max = DecMax(e.max)])

RECURSIVE DerivSeq(_, _)
DerivSeq(e, s) == IF s = <<>> \/ e.k = "fail" THEN e ELSE DerivSeq(Deriv(e, Head(s)), Tail(s))
DerivAccepts(e, s) == DNullable(DerivSeq(e, s))

(* ---------------------------------------------------------------------------------------------- *)
(* Tables: components with a key and a set of accepted value classes; an expression over component *)
(* numbers. pairs is a sequence of [key, val].                                                     *)
CanTake(comps, c, p) == comps[c].key = p.key /\ \E i \in 1..Len(comps[c].accept) : comps[c].accept[i] = p.val
Assignments(comps, pairs) ==
  {f \in [1..Len(pairs) -> 1..Len(comps)] : \A i \in 1..Len(pairs) : CanTake(comps, f[i], pairs[i])}
BagOfAssignment(f, n, C) == [c \in 1..C |-> Cardinality({i \in 1..n : f[i] = c})]
ValidAssignment(comps, e, pairs, f) ==
  InLang(e, BagOfAssignment(f, Len(pairs), Len(comps)))
ValidAssignments(comps, e, pairs) ==
  {f \in Assignments(comps, pairs) : ValidAssignment(comps, e, pairs, f)}
=============================================================================
