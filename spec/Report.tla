-------------------------------- MODULE Report --------------------------------
(* The results of a validation and the documents that show them.             *)
(*                                                                           *)
(* A ShEx result is <<node, shape, status>>; a SHACL result is               *)
(* <<severity, node, component, path, value, source shape, node', value'>>,  *)
(* where literals count as one in node' and value' (they are sorted by what   *)
(* they denote, so that equal ones need not be together).  A document        *)
(* (view) in any format has one row for each result and nothing else, with   *)
(* the rows in the order that was asked for.                                 *)
EXTENDS Integers, Sequences, FiniteSets

RowsOf(s) == {s[i] : i \in 1..Len(s)}
Times(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameRows(a, b) == Len(a) = Len(b) /\ \A x \in RowsOf(a) : Times(x, a) = Times(x, b)
(* rows with equal keys are together *)
Grouped(rows, Key(_)) ==
  \A i, j \in 1..Len(rows) : i < j /\ Key(rows[i]) = Key(rows[j]) => \A m \in i..j : Key(rows[m]) = Key(rows[i])
Ascending(rows, Num(_)) == \A i \in 1..Len(rows) - 1 : Num(rows[i]) <= Num(rows[i + 1])

(* --------------------------------------------------------------- ShEx ---- *)
Mark(status) == CASE status = "conformant" -> "OK" [] status = "nonconformant" -> "FAIL" [] OTHER -> status
Marked(base) == [i \in 1..Len(base) |-> <<base[i][1], base[i][2], Mark(base[i][3])>>]
ShexSorted(rows, sort) ==
  CASE sort = "node" -> Grouped(rows, LAMBDA r : r[1])
    [] sort = "shape" -> Grouped(rows, LAMBDA r : r[2])
    [] sort = "status" -> Grouped(rows, LAMBDA r : r[3])
    [] OTHER -> TRUE
ShexView(base, v) ==
  /\ v.fail = ""
  /\ SameRows(v.rows, IF v.f = "json" THEN base ELSE Marked(base))
  /\ v.f = "json" \/ ShexSorted(v.rows, v.sort)

(* -------------------------------------------------------------- SHACL ---- *)
Rank(sev) == CASE sev = "Violation" -> 1 [] sev = "Warning" -> 2 [] sev = "Info" -> 3 [] sev = "Debug" -> 4 [] sev = "Trace" -> 5 [] OTHER -> 6
Column(sort) == CASE sort = "node" -> 7 [] sort = "component" -> 3 [] sort = "path" -> 4 [] sort = "value" -> 8 [] sort = "sourceshape" -> 6
ShaclSorted(rows, sort) ==
  CASE sort = "severity" -> Ascending(rows, LAMBDA r : Rank(r[1]))
    [] sort = "details" -> TRUE
    [] sort = "path" -> \A i, j \in 1..Len(rows) : i < j /\ rows[i][4] = rows[j][4] /\ rows[i][4] # "?" => \A m \in i..j : rows[m][4] = rows[i][4]
    [] OTHER -> Grouped(rows, LAMBDA r : r[Column(sort)])
OfSeverity(base, s) == Cardinality({i \in 1..Len(base) : base[i][1] = s})
ShaclView(base, v) ==
  /\ v.fail = ""
  /\ IF v.f = "minimal"
     THEN /\ v.conforms = (base = <<>>)
          /\ base # <<>> => v.violations = OfSeverity(base, "Violation") /\ v.warnings = OfSeverity(base, "Warning")
     ELSE SameRows(v.rows, base) /\ ShaclSorted(v.rows, v.sort)

(* A report written as RDF mentions blank nodes of the data and shapes graphs. *)
(* The nodes made for the report are new, or else a mentioned node would be   *)
(* described by it                                                            *)
Unmixed(mentioned, subjects) == mentioned \cap subjects = {}
RdfView(base, v) == v.fail = "" /\ SameRows(v.rows, base) /\ v.conforms = (base = <<>>) /\ Unmixed(RowsOf(v.mentioned), RowsOf(v.subjects))
View(k, base, v) == IF k = "shex" THEN ShexView(base, v) ELSE IF v.rdf THEN RdfView(base, v) ELSE ShaclView(base, v)
==============================================================================
