------------------------------- MODULE IriArg --------------------------------
(* Node and shape arguments given as text (P02): which of them are bare        *)
(* absolute IRIs, how each mode normalizes them, and what they then denote.    *)
(* Text is a sequence of code points.                                          *)
EXTENDS Prefix

Space(c) == c \in {32, 9, 10, 13}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Space(s[1]) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

Alpha(c) == c \in 65..90 \/ c \in 97..122
Digit(c) == c \in 48..57
SchemeChar(c) == Alpha(c) \/ Digit(c) \/ c \in {43, 45, 46}
NotInIri(c) == c <= 32 \/ c \in {60, 62, 34, 123, 125, 124, 94, 96, 92}

HasColon(s) == \E k \in DOMAIN s : s[k] = COLON
Scheme(s) == SubSeq(s, 1, FirstColon(s) - 1)
HasScheme(s) == /\ HasColon(s) /\ Scheme(s) # <<>> /\ Alpha(Scheme(s)[1])
                /\ \A k \in DOMAIN Scheme(s) : SchemeChar(Scheme(s)[k])
IriText(s) == \A k \in DOMAIN s : ~NotInIri(s[k])

\* a bare absolute IRI: scheme "://" rest, of characters that an IRI can contain
Bare(s) == /\ HasScheme(s) /\ IriText(s)
           /\ LET k == FirstColon(s) IN Len(s) >= k + 2 /\ s[k + 1] = 47 /\ s[k + 2] = 47

Norm(s, mode) == IF mode = "lax" /\ Bare(Trim(s)) THEN Full(Trim(s)) ELSE Trim(s)

\* laws of the normalization, checked for every recorded argument
Laws(s) == /\ Norm(Norm(s, "lax"), "lax") = Norm(s, "lax")
           /\ Norm(s, "strict") = Trim(s)
           /\ ~Bare(Trim(s)) => Norm(s, "lax") = Trim(s)

\* what a normalized argument denotes: a node, an error, or something else ("other") which this module does not read
NameStart(c) == Alpha(c)
NameChar(c) == Alpha(c) \/ Digit(c) \/ c \in {45, 95}
Name(s) == s # <<>> /\ NameStart(s[1]) /\ \A k \in DOMAIN s : NameChar(s[k])
LocalText(s) == \A k \in DOMAIN s : Alpha(s[k]) \/ Digit(s[k]) \/ s[k] = 95
Error == [k |-> "error"]
Other == [k |-> "other"]
Node(t) == [k |-> "node", v |-> t]

\* an IRI whose authority has a colon other than one before a port, or an unfinished percent escape: may be ill-formed
RECURSIVE AuthEnd(_, _)
AuthEnd(s, k) == IF k > Len(s) \/ s[k] \in {47, 63, 35} THEN k - 1 ELSE AuthEnd(s, k + 1)
Odd(i) == LET k == FirstColon(i)
              n == IF Len(i) >= k + 2 /\ i[k + 1] = 47 /\ i[k + 2] = 47 THEN AuthEnd(i, k + 3) ELSE 0
          IN \/ \E j \in (k + 3)..n : i[j] = COLON /\ j < n /\ ~Digit(i[j + 1])
             \/ \E j \in (k + 3)..n : i[j] = COLON /\ \E m \in (j + 1)..n : ~Digit(i[m])
             \/ \E j \in DOMAIN i : i[j] \in {37, 91, 93}
             \/ Cardinality({j \in DOMAIN i : i[j] = 35}) > 1

Denote(s, pm) ==
  IF Len(s) >= 2 /\ s[1] = LT /\ s[Len(s)] = GT
     THEN LET i == SubSeq(s, 2, Len(s) - 1) IN IF IriText(i) /\ HasScheme(i) /\ ~Odd(i) THEN Node(i) ELSE Other
  ELSE IF Len(s) > 2 /\ s[1] = 95 /\ s[2] = COLON
     THEN IF Name(SubSeq(s, 3, Len(s))) THEN Node(s) ELSE Other
  ELSE IF Bare(s) THEN Error               \* not a prefixed name: a slash cannot follow the colon
  ELSE IF HasColon(s)
     THEN LET k == FirstColon(s)
              a == SubSeq(s, 1, k - 1)
              l == SubSeq(s, k + 1, Len(s))
          IN IF (a = <<>> \/ Name(a)) /\ LocalText(l)
               THEN IF a \in DOMAIN pm THEN Node(pm[a] \o l) ELSE Error
               ELSE Other
  ELSE Other
==============================================================================
