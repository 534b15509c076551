------------------------------ MODULE Literals ------------------------------
(* What comparing two literals may answer: Allowed(a, b) is a set of verdicts,  *)
(* -1 less, 0 equal, 1 greater, 2 not comparable. It is a singleton wherever the *)
(* order of the value spaces decides; it is larger where XSD and SPARQL leave    *)
(* the answer open (rounding of floating point numbers, unknown datatypes).      *)
EXTENDS Terms

Floating(t) == t.dt \in {"double", "float"}
(* exactly representable in both floating types *)
RECURSIVE Val(_), Pow(_, _)
Val(d) == IF d = <<>> THEN 0 ELSE Val(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Exact(n) == \/ n.k # "n" \/ n.d = <<>>
            \/ /\ Len(n.d) <= 6 /\ n.e \in -2..6
               /\ LET f == FractionDigitsOf(n) IN f <= 4 /\ Val(n.d) % Pow(5, f) = 0
PowersOfTwo == { [d |-> <<5,6,2,9,4,9,9,5,3,4,2,1,3,1,2>>, e |-> 15],
             [d |-> <<4,5,0,3,5,9,9,6,2,7,3,7,0,4,9,6>>, e |-> 16],
             [d |-> <<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,2>>, e |-> 16],
             [d |-> <<1,1,5,2,9,2,1,5,0,4,6,0,6,8,4,6,9,7,6>>, e |-> 19],
             [d |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, e |-> 19],
             [d |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>, e |-> 20],
             [d |-> <<3,9,6,1,4,0,8,1,2,5,7,1,3,2,1,6,8,7,9,6,7,7,1,9,7,5,1,6,8>>, e |-> 29],
             [d |-> <<1,2,6,7,6,5,0,6,0,0,2,2,8,2,2,9,4,0,1,4,9,6,7,0,3,2,0,5,3,7,6>>, e |-> 31] }
(* exactly representable as a double: integers of at most 15 digits too *)
ExactIn(t) == LET n == NumVal(t)
              IN ~Floating(t) \/ Exact(n) \/ (t.dt = "double" /\ IsInteger(n) /\ n.e <= 15)
                 \/ (t.dt = "double" /\ n.k = "n" /\ [d |-> n.d, e |-> n.e] \in PowersOfTwo)
(* the same to the precision of the type: 6 digits for floats, 15 for doubles *)
Prefix(d, k) == [i \in 1..k |-> IF i <= Len(d) THEN d[i] ELSE 0]
Near(a, b) == LET x == NumVal(a)  y == NumVal(b)
                  k == IF a.dt = "float" \/ b.dt = "float" THEN 6 ELSE 15
              IN /\ x.k = "n" /\ y.k = "n" /\ x.s = y.s /\ x.e = y.e
                 /\ Prefix(x.d, k) = Prefix(y.d, k)
NumAllowed(a, b) ==
  LET c == NumCmp(NumVal(a), NumVal(b))
  IN IF (~Floating(a) /\ ~Floating(b)) \/ (ExactIn(a) /\ ExactIn(b)) \/ c = 2 THEN {c}
     ELSE IF a = b THEN {0}
     ELSE IF a.dt = b.dt /\ c = 0 THEN {0}       \* the same number in the same type: the same value
     ELSE IF Near(a, b) THEN {-1, 0, 1}
     ELSE {c}
Allowed(a, b) ==
  IF ~WellFormed(a) \/ ~WellFormed(b) THEN (IF a = b THEN {0, 2} ELSE {2})
  ELSE IF a.dt \in NumTypes /\ b.dt \in NumTypes THEN NumAllowed(a, b)
  ELSE IF a.dt # b.dt THEN {2}
  ELSE IF a.dt = "langString" THEN (IF Lower(a.lang) = Lower(b.lang) THEN {StrCmp(a.s, b.s), 2} ELSE {2})
  ELSE IF a.dt \in KnownDt THEN {LitCmp(a, b)}
  ELSE {StrCmp(a.s, b.s), 2}

Inv3(c) == IF c \in {-1, 1} THEN - c ELSE c

(* what is wrong with the observations about items i and j, which represent literals a and b *)
Problem(ev, a, b, i, j) ==
  LET c == ev.cmp[i][j]
  IN IF c \notin Allowed(a, b) THEN "order"
     ELSE IF ev.cmp[j][i] # Inv3(c) THEN "not antisymmetric"
     ELSE IF ev.eq[i][j] # ev.eq[j][i] \/ (i = j /\ ~ev.eq[i][j]) THEN "equality"
     ELSE IF ev.eq[i][j] /\ ~ev.hash[i][j] THEN "hash"
     ELSE IF ev.eq[i][j] /\ c \in {-1, 1} THEN "equal but ordered"
     ELSE IF ev.eq[i][j] /\ 0 \notin Allowed(a, b) /\ a # b THEN "equal values that are not"
     ELSE IF ev.form[i] = ev.form[j] /\ a = b /\ ~ev.eq[i][j] THEN "a literal differs from itself"
     ELSE IF ev.kind[i] = "num" /\ ev.kind[j] = "num" /\ c # 2 /\ ev.eq[i][j] # (c = 0) THEN "equality of numbers"
     ELSE IF ev.kind[i] = "num" /\ ev.kind[j] = "num"
             /\ ev.lt[i][j] # (CASE c = -1 -> 3 [] c = 0 -> 1 [] OTHER -> 0) THEN "less than"
     ELSE IF ev.total[j][i] # - ev.total[i][j] THEN "total order not antisymmetric"
     ELSE IF c # 2 /\ ev.total[i][j] # c THEN "total order"
     ELSE ""
=============================================================================
