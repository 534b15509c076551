-------------------------------- MODULE Terms --------------------------------
(* RDF terms, XSD lexical spaces and values. Strings are sequences of code     *)
(* points, so every string operation is defined here and not by the host.      *)
(* A term is [t |-> "iri"|"bnode"|"lit", s |-> string, dt |-> STRING, lang |-> string]. *)
(* dt is the local name for XSD datatypes, "langString", or any other name.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsIri(t) == t.t = "iri"
IsBNode(t) == t.t = "bnode"
IsLit(t) == t.t = "lit"

------------------------------------------------------------------------------
(* strings *)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
AllDigits(s) == \A i \in 1..Len(s) : s[i] \in 48..57
(* first position holding a character of cs, 0 if none *)
Find(s, cs) == IF \E i \in 1..Len(s) : s[i] \in cs
               THEN CHOOSE i \in 1..Len(s) : s[i] \in cs /\ \A j \in 1..(i-1) : s[j] \notin cs
               ELSE 0
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE StrLess(Tail(a), Tail(b))
StrCmp(a, b) == IF a = b THEN 0 ELSE IF StrLess(a, b) THEN -1 ELSE 1

(* BCP47 basic filtering: the range is a prefix of the tag ending at a subtag boundary *)
LangInRange(tag, range) ==
  LET a == Lower(tag)  r == Lower(range)
  IN a = r \/ (StartsWith(a, r) /\ Len(a) > Len(r) /\ a[Len(r) + 1] = 45)

------------------------------------------------------------------------------
(* lexical spaces *)
HasSign(s) == Len(s) > 0 /\ s[1] \in {43, 45}
Unsigned(s) == IF HasSign(s) THEN Tail(s) ELSE s
IntLex(s) == LET u == Unsigned(s) IN Len(u) > 0 /\ AllDigits(u)
DecLex(s) == LET u == Unsigned(s)  k == Find(u, {46})
             IN IF k = 0 THEN Len(u) > 0 /\ AllDigits(u)
                ELSE Len(u) > 1 /\ AllDigits(SubSeq(u, 1, k - 1)) /\ AllDigits(SubSeq(u, k + 1, Len(u)))
INFs == <<73, 78, 70>>
NaNs == <<78, 97, 78>>
IsInfLex(s) == Unsigned(s) = INFs
DblLex(s) == LET k == Find(s, {69, 101})
             IN IF k = 0 THEN DecLex(s) \/ IsInfLex(s) \/ s = NaNs
                ELSE DecLex(SubSeq(s, 1, k - 1)) /\ IntLex(SubSeq(s, k + 1, Len(s)))
TrueS == <<116, 114, 117, 101>>
FalseS == <<102, 97, 108, 115, 101>>
BoolLex(s) == s \in {TrueS, FalseS, <<48>>, <<49>>}

(* an exact number: sign * 0.d1d2d3... * 10^e with d1 # 0 and last digit # 0; zero has no digits *)
RECURSIVE StripL(_), StripR(_), Nat10(_)
StripL(d) == IF d # <<>> /\ d[1] = 0 THEN StripL(Tail(d)) ELSE d
StripR(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripR(SubSeq(d, 1, Len(d) - 1)) ELSE d
Nat10(s) == IF s = <<>> THEN 0 ELSE Nat10(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
SmallInt(s) == IF Len(s) > 0 /\ s[1] = 45 THEN - Nat10(Unsigned(s)) ELSE Nat10(Unsigned(s))
Digits(s) == [i \in 1..Len(s) |-> s[i] - 48]
Num(sign, ds, e) == \* ds: digits of the whole, e: position of the point from the left
  LET l == StripL(ds)
      d == StripR(l)
  IN IF d = <<>> THEN [k |-> "n", s |-> 0, d |-> <<>>, e |-> 0]
     ELSE [k |-> "n", s |-> sign, d |-> d, e |-> e - (Len(ds) - Len(l))]
NumOf(s) == \* s in the double lexical space
  IF s = NaNs THEN [k |-> "nan", s |-> 0, d |-> <<>>, e |-> 0]
  ELSE LET sg == IF s[1] = 45 THEN -1 ELSE 1
       IN IF IsInfLex(s) THEN [k |-> "inf", s |-> sg, d |-> <<>>, e |-> 0]
          ELSE LET u == Unsigned(s)
                   k == Find(u, {69, 101})
                   m == IF k = 0 THEN u ELSE SubSeq(u, 1, k - 1)
                   x == IF k = 0 THEN 0 ELSE SmallInt(SubSeq(u, k + 1, Len(u)))
                   p == Find(m, {46})
                   i == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
                   f == IF p = 0 THEN <<>> ELSE SubSeq(m, p + 1, Len(m))
               IN Num(sg, Digits(i \o f), Len(i) + x)
RECURSIVE DigLess(_, _)
DigLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE DigLess(Tail(a), Tail(b))
MagLess(a, b) == \* |a| < |b| for nonzero finite a, b
  IF a.e # b.e THEN a.e < b.e ELSE DigLess(a.d, b.d)
(* -1, 0, 1, or 2 when not comparable (NaN) *)
NumCmp(a, b) ==
  IF a.k = "nan" \/ b.k = "nan" THEN 2
  ELSE IF a = b THEN 0
  ELSE IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1)
  ELSE LET magl == IF a.k = "inf" THEN FALSE ELSE IF b.k = "inf" THEN TRUE ELSE MagLess(a, b)
       IN IF a.s > 0 THEN (IF magl THEN -1 ELSE 1) ELSE (IF magl THEN 1 ELSE -1)
NumLess(a, b) == NumCmp(a, b) = -1
NumLeq(a, b) == NumCmp(a, b) \in {-1, 0}

IsInteger(n) == n.k = "n" /\ Len(n.d) <= (IF n.e < 0 THEN 0 ELSE n.e)
(* digits of the canonical decimal representation *)
FractionDigitsOf(n) == IF Len(n.d) > n.e THEN Len(n.d) - n.e ELSE 0
TotalDigitsOf(n) == IF n.d = <<>> THEN 1
                    ELSE IF n.e > Len(n.d) THEN n.e
                    ELSE IF n.e < 0 THEN Len(n.d) - n.e     \* XSD: i * 10^-k with |i| < 10^t and k <= t, so 0.05 needs t = 2
                    ELSE Len(n.d)

IntFamily == {"integer", "long", "int", "short", "byte", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger",
              "negativeInteger", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"}
DecFamily == IntFamily \union {"decimal"}
NumTypes == DecFamily \union {"double", "float"}
MkNum(sign, ds) == Num(sign, ds, Len(ds))
One == MkNum(1, <<1>>)
Zero == MkNum(1, <<0>>)
NoMax == [k |-> "inf", s |-> 1, d |-> <<>>, e |-> 0]
NoMin == [k |-> "inf", s |-> -1, d |-> <<>>, e |-> 0]
MaxOf(dt) == CASE dt = "long" -> MkNum(1, <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)
               [] dt = "int" -> MkNum(1, <<2,1,4,7,4,8,3,6,4,7>>)
               [] dt = "short" -> MkNum(1, <<3,2,7,6,7>>)
               [] dt = "byte" -> MkNum(1, <<1,2,7>>)
               [] dt = "unsignedLong" -> MkNum(1, <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
               [] dt = "unsignedInt" -> MkNum(1, <<4,2,9,4,9,6,7,2,9,5>>)
               [] dt = "unsignedShort" -> MkNum(1, <<6,5,5,3,5>>)
               [] dt = "unsignedByte" -> MkNum(1, <<2,5,5>>)
               [] dt = "nonPositiveInteger" -> Zero
               [] dt = "negativeInteger" -> MkNum(-1, <<1>>)
               [] OTHER -> NoMax
MinOf(dt) == CASE dt = "long" -> MkNum(-1, <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)
               [] dt = "int" -> MkNum(-1, <<2,1,4,7,4,8,3,6,4,8>>)
               [] dt = "short" -> MkNum(-1, <<3,2,7,6,8>>)
               [] dt = "byte" -> MkNum(-1, <<1,2,8>>)
               [] dt \in {"unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "nonNegativeInteger"} -> Zero
               [] dt = "positiveInteger" -> One
               [] OTHER -> NoMin

------------------------------------------------------------------------------
(* dates: YYYY-MM-DD[Thh:mm:ss[.fff]][Z|(+|-)hh:mm] *)
D2(s, i) == Nat10(SubSeq(s, i, i + 1))
IsD(s, i, j) == Len(s) >= j /\ \A k \in i..j : s[k] \in 48..57
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
DatePart(s) == /\ Len(s) >= 10 /\ IsD(s, 1, 4) /\ s[5] = 45 /\ IsD(s, 6, 7) /\ s[8] = 45 /\ IsD(s, 9, 10)
               /\ D2(s, 6) \in 1..12 /\ D2(s, 9) >= 1 /\ D2(s, 9) <= DaysIn(Nat10(SubSeq(s, 1, 4)), D2(s, 6))
TzLex(s) == \/ s = <<>> \/ s = <<90>>
            \/ /\ Len(s) = 6 /\ s[1] \in {43, 45} /\ IsD(s, 2, 3) /\ s[4] = 58 /\ IsD(s, 5, 6)
               /\ D2(s, 2) <= 14 /\ D2(s, 5) <= 59 /\ (D2(s, 2) = 14 => D2(s, 5) = 0)
TimePart(s) == /\ Len(s) >= 8 /\ IsD(s, 1, 2) /\ s[3] = 58 /\ IsD(s, 4, 5) /\ s[6] = 58 /\ IsD(s, 7, 8)
               /\ D2(s, 1) <= 23 /\ D2(s, 4) <= 59 /\ D2(s, 7) <= 59
(* after the seconds: fraction (without the point) and the rest *)
FracLen(s) == IF Len(s) > 8 /\ s[9] = 46
              THEN LET k == Find(SubSeq(s, 10, Len(s)), {90, 43, 45}) IN IF k = 0 THEN Len(s) - 9 ELSE k - 1
              ELSE 0
FracOf(s) == SubSeq(s, 10, 9 + FracLen(s))
TzOf(s) == IF FracLen(s) > 0 THEN SubSeq(s, 10 + FracLen(s), Len(s)) ELSE SubSeq(s, 9, Len(s))
TimeLex(s) == TimePart(s) /\ AllDigits(FracOf(s)) /\ TzLex(TzOf(s))
DateTimeLex(s) == DatePart(s) /\ Len(s) >= 19 /\ s[11] = 84 /\ TimeLex(SubSeq(s, 12, Len(s)))
DateLex(s) == DatePart(s) /\ TzLex(SubSeq(s, 11, Len(s)))
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + DaysIn(y, m - 1)
DayNo(s) == LET y == Nat10(SubSeq(s, 1, 4))
            IN 365 * (y - 1900) + (y - 1901) \div 4 - (y - 1901) \div 100 + (y - 1601) \div 400
               + DaysBefore(y, D2(s, 6)) + D2(s, 9)     \* years 1900..2999
TzMin(z) == IF z = <<>> \/ z = <<90>> THEN 0 ELSE (IF z[1] = 45 THEN -1 ELSE 1) * (60 * D2(z, 2) + D2(z, 5))
(* [tz, day, sec, frac] normalised to UTC *)
DTNorm(day, secs, frac, z) ==
  LET t == secs - 60 * TzMin(z)
      dd == IF t < 0 THEN -1 ELSE IF t >= 86400 THEN 1 ELSE 0
  IN [tz |-> z # <<>>, day |-> day + dd, sec |-> t - 86400 * dd, frac |-> StripR(Digits(frac))]
DateTimeOf(s) == LET t == SubSeq(s, 12, Len(s))
                 IN DTNorm(DayNo(s), 3600 * D2(t, 1) + 60 * D2(t, 4) + D2(t, 7), FracOf(t), TzOf(t))
DateOf(s) == DTNorm(DayNo(s), 0, <<>>, SubSeq(s, 11, Len(s)))
DTLess0(a, b) == \/ a.day < b.day
                 \/ a.day = b.day /\ (a.sec < b.sec \/ (a.sec = b.sec /\ DigLess(a.frac, b.frac)))
DTShift(a, h) == LET t == a.sec + 3600 * h
                     dd == IF t < 0 THEN -1 ELSE IF t >= 86400 THEN 1 ELSE 0
                 IN [a EXCEPT !.day = @ + dd, !.sec = t - 86400 * dd]
(* XSD order: a value without timezone stands for all timezones between -14:00 and +14:00 *)
DTCmp(a, b) ==
  IF a.tz = b.tz THEN (IF DTLess0(a, b) THEN -1 ELSE IF DTLess0(b, a) THEN 1 ELSE 0)
  ELSE IF a.tz THEN (IF DTLess0(a, DTShift(b, -14)) THEN -1 ELSE IF DTLess0(DTShift(b, 14), a) THEN 1 ELSE 2)
  ELSE (IF DTLess0(DTShift(a, 14), b) THEN -1 ELSE IF DTLess0(b, DTShift(a, -14)) THEN 1 ELSE 2)

------------------------------------------------------------------------------
(* datatypes whose lexical space is specified here *)
KnownDt == NumTypes \union {"string", "boolean", "dateTime", "date"}
WellFormed(t) == \* for literals
  CASE t.dt \in IntFamily -> IntLex(t.s) /\ NumLeq(MinOf(t.dt), NumOf(t.s)) /\ NumLeq(NumOf(t.s), MaxOf(t.dt))
    [] t.dt = "decimal" -> DecLex(t.s)
    [] t.dt \in {"double", "float"} -> DblLex(t.s)
    [] t.dt = "boolean" -> BoolLex(t.s)
    [] t.dt = "dateTime" -> DateTimeLex(t.s)
    [] t.dt = "date" -> DateLex(t.s)
    [] OTHER -> TRUE
IsNumeric(t) == IsLit(t) /\ t.dt \in NumTypes /\ WellFormed(t)
NumVal(t) == NumOf(t.s)

(* comparison of literals: -1, 0, 1, or 2 when the values are not comparable *)
LitCmp(a, b) ==
  IF ~IsLit(a) \/ ~IsLit(b) THEN 2
  ELSE IF ~WellFormed(a) \/ ~WellFormed(b) THEN 2
  ELSE IF a.dt \in NumTypes /\ b.dt \in NumTypes THEN NumCmp(NumOf(a.s), NumOf(b.s))
  ELSE IF a.dt # b.dt THEN 2
  ELSE CASE a.dt = "string" -> StrCmp(a.s, b.s)
         [] a.dt = "boolean" -> LET x == a.s \in {TrueS, <<49>>}  y == b.s \in {TrueS, <<49>>}
                                IN IF x = y THEN 0 ELSE IF y THEN -1 ELSE 1
         [] a.dt = "dateTime" -> DTCmp(DateTimeOf(a.s), DateTimeOf(b.s))
         [] a.dt = "date" -> DTCmp(DateOf(a.s), DateOf(b.s))
         [] OTHER -> 2

------------------------------------------------------------------------------
(* regular expressions, by derivatives. A pattern is an AST built by the test generator;
   k: "eps","none","cls"(lo,hi pairs or any),"cat","alt","star","plus","opt"                *)
InCls(r, c) == IF r.any THEN r.all \/ c # 10 ELSE ((\E i \in 1..Len(r.rs) : c >= r.rs[i][1] /\ c <= r.rs[i][2]) # r.neg)
InPos(r, c) == \E i \in 1..Len(r.rs) : c >= r.rs[i][1] /\ c <= r.rs[i][2]
InClsI(r, c) == IF r.any THEN r.all \/ c # 10   \* a class is closed under case folding before it is negated
                ELSE (InPos(r, c) \/ (c \in 65..90 /\ InPos(r, c + 32)) \/ (c \in 97..122 /\ InPos(r, c - 32))) # r.neg
Eps == [k |-> "eps"]
None == [k |-> "none"]
RECURSIVE Nul(_), Der(_, _, _)
Nul(r) == CASE r.k \in {"eps", "star", "opt"} -> TRUE
            [] r.k \in {"none", "cls"} -> FALSE
            [] r.k = "cat" -> Nul(r.a) /\ Nul(r.b)
            [] r.k = "alt" -> Nul(r.a) \/ Nul(r.b)
            [] r.k = "plus" -> Nul(r.a)
Cat(a, b) == IF a.k = "none" \/ b.k = "none" THEN None ELSE IF a.k = "eps" THEN b ELSE IF b.k = "eps" THEN a
             ELSE [k |-> "cat", a |-> a, b |-> b]
Alt(a, b) == IF a.k = "none" THEN b ELSE IF b.k = "none" THEN a ELSE IF a = b THEN a ELSE [k |-> "alt", a |-> a, b |-> b]
Der(r, c, ci) ==
  CASE r.k \in {"eps", "none"} -> None
    [] r.k = "cls" -> IF (IF ci THEN InClsI(r, c) ELSE InCls(r, c)) THEN Eps ELSE None
    [] r.k = "cat" -> LET d == Cat(Der(r.a, c, ci), r.b) IN IF Nul(r.a) THEN Alt(d, Der(r.b, c, ci)) ELSE d
    [] r.k = "alt" -> Alt(Der(r.a, c, ci), Der(r.b, c, ci))
    [] r.k = "star" -> Cat(Der(r.a, c, ci), r)
    [] r.k = "plus" -> Cat(Der(r.a, c, ci), [k |-> "star", a |-> r.a])
    [] r.k = "opt" -> Der(r.a, c, ci)
RECURSIVE Matches(_, _, _), MatchesPrefix(_, _, _)
Matches(r, s, ci) == IF s = <<>> THEN Nul(r) ELSE IF r.k = "none" THEN FALSE ELSE Matches(Der(r, s[1], ci), Tail(s), ci)
MatchesPrefix(r, s, ci) == \/ Nul(r)
                           \/ /\ s # <<>> /\ r.k # "none" /\ MatchesPrefix(Der(r, s[1], ci), Tail(s), ci)
(* pat = [re, start, end, ci, ml]: anchored at the start and/or the end (with ml, of a line) *)
PatternMatch(pat, s) ==
  LET starts == IF ~pat.start THEN 1..(Len(s) + 1) ELSE {1} \union (IF pat.ml THEN {i + 1 : i \in {j \in 1..Len(s) : s[j] = 10}} ELSE {})
      ends == {Len(s)} \union (IF pat.ml THEN {i - 1 : i \in {j \in 1..Len(s) : s[j] = 10}} ELSE {})
  IN \E i \in starts : IF pat.end THEN \E e \in ends : e >= i - 1 /\ Matches(pat.re, SubSeq(s, i, e), pat.ci)
                       ELSE MatchesPrefix(pat.re, SubSeq(s, i, Len(s)), pat.ci)
==============================================================================
