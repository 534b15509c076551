import sys
sys.argv = sys.argv or []
from mkplant import *
ONLY = sys.argv[1:]
def pl(id, *a, **k):
    if not ONLY or id in ONLY:
        plant(id, *a, **k)
HEAD = r'''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
'''
pl("X07-a", "X07", [("shex_ast/src/shapemap/node_selector.rs", "if let Some(variable) = variables.first()", "if let Some(variable) = variables.last()")],
   "a shape map whose SPARQL selector answers with more than one variable", "the nodes come from the last variable of the query rather than the first",
   HEAD + r'''cat > "$D/s.shex" <<'EOS'
PREFIX : <http://e/>
:S { :p [1 2] }
EOS
cat > "$D/d.ttl" <<'EOS'
@prefix : <http://e/> .
:a :p 1 ; :r :x . :b :p 3 ; :r :y . :x :p 5 . :y :p 2 .
EOS
cat > "$D/m.sm" <<'EOS'
SPARQL """SELECT ?f ?o WHERE { ?f <http://e/r> ?o }"""@<http://e/S>
EOS
timeout 120 ./target/debug/rudof shex-validate -s "$D/s.shex" -m "$D/m.sm" "$D/d.ttl" -r json > "$D/out" 2> "$D/err" || { cat "$D/err"; exit 1; }
python3 - "$D/out" <<'EOS'
import json, sys
got = sorted((r["node"].split("/")[-1].strip(">"), r["status"]) for r in json.load(open(sys.argv[1])))
print(got)
sys.exit(got != [("a", "conformant"), ("b", "nonconformant")])
EOS
''')
pl("X08-a", "X08", [("shex_ast/src/compact/shex_compact_printer.rs", "        let extra = self.opt_pp1(&s.extra, self.pp_extra());", "        // a closed shape admits the predicates of its expression only\n        let extra = if s.is_closed() {\n            self.doc.nil()\n        } else {\n            self.opt_pp1(&s.extra, self.pp_extra())\n        };")],
   "a shape that is closed and has EXTRA predicates, written as ShExC and read back", "EXTRA is lost from closed shapes, so nodes with further values of those predicates no longer conform",
   HEAD + r'''cat > "$D/s.shex" <<'EOS'
PREFIX : <http://e/>
:S CLOSED EXTRA :p { :p [1] ; :q . * }
EOS
cat > "$D/d.ttl" <<'EOS'
@prefix : <http://e/> .
:a :p 1, 2 . :b :p 2 . :c :p 1 ; :r 3 .
EOS
echo '<http://e/a>@<http://e/S>,<http://e/b>@<http://e/S>,<http://e/c>@<http://e/S>' > "$D/m.sm"
timeout 120 ./target/debug/rudof shex -s "$D/s.shex" -r shexc -o "$D/t.shex" > /dev/null 2> "$D/err" || { cat "$D/err"; exit 1; }
for s in s t; do
timeout 120 ./target/debug/rudof shex-validate -s "$D/$s.shex" -m "$D/m.sm" "$D/d.ttl" -r json > "$D/out" 2> "$D/err" || { cat "$D/err"; exit 1; }
python3 - "$D/out" > "$D/$s" <<'EOS'
import json, sys
for x in sorted(r["node"] + r["shape"] + r["status"] for r in json.load(open(sys.argv[1]))): print(x)
EOS
done
grep -q . "$D/s" && diff "$D/s" "$D/t"
''')
pl("V01-a", "V01", [("shacl/src/validator/report/mod.rs", "        if self.results.is_empty() {\n            let true_term", "        if self.get_count_of(&Severity::Violation) == 0 {\n            let true_term")],
   "a report all of whose results have a severity below violation, written as RDF", "the RDF of a report with warnings only says that the data conforms",
   HEAD + r'''cat > "$D/s.ttl" <<'EOS'
@prefix sh: <http://www.w3.org/ns/shacl#> .
@prefix : <http://e/> .
:S a sh:NodeShape ; sh:targetNode :a, :b ; sh:property [ sh:path :p ; sh:minCount 1 ; sh:severity sh:Warning ] .
EOS
printf '@prefix : <http://e/> .\n:a :p 1 . :b :q 1 .\n' > "$D/d.ttl"
timeout 120 ./target/debug/rudof shacl-validate -s "$D/s.ttl" -r ntriples "$D/d.ttl" > "$D/out" 2> "$D/err"
cat "$D/out"
grep -q 'shacl#conforms> "false"' "$D/out"
''')
pl("N01-a", "N01", [("rudof_generate/src/parallel_generation.rs", "            let batch_end = (batch_start + batch_size).min(count);", "            let batch_end = batch_start + batch_size.min(count);")],
   "more than 100 entities of a shape, and not a multiple of 100", "the last batch of a shape is always a full one, so more entities are generated than were asked for",
   HEAD + r'''printf 'PREFIX : <http://e/>\nPREFIX xsd: <http://www.w3.org/2001/XMLSchema#>\n:S { :p xsd:integer }\n:T { :q xsd:boolean }\n' > "$D/s.shex"
for n in 7 150 260; do
timeout 120 ./target/debug/rudof generate -s "$D/s.shex" -f shex -n $n --seed 3 -r ntriples -o "$D/$n.nt" > /dev/null 2> "$D/err" || { cat "$D/err"; exit 1; }
k=$(cut -d' ' -f1 "$D/$n.nt" | sort -u | wc -l)
[ "$k" = "$n" ] || { echo "$k entities instead of $n"; exit 1; }
done
''')
pl("K01-a", "K01", [("pgschema/src/record_type.rs", "                let combined_type = ValueType::intersection(value_type.clone(), other_value_type.clone());",
   "                let combined_type = if value_type == other_value_type {\n                    value_type.clone()\n                } else {\n                    ValueType::union(value_type.clone(), other_value_type.clone())\n                };")],
   "a type that refers to another one and constrains the same property further", "a property constrained by both types has to satisfy only one of the two",
   HEAD + r'''cat > "$D/s.pgs" <<'EOS'
CREATE NODE TYPE ( AType : A { age: INTEGER }) ;
CREATE NODE TYPE ( BType : @AType & B { age: INTEGER CHECK (> 17) })
EOS
cat > "$D/d.pg" <<'EOS'
(n1 {A, B} [ age: 20 ])
(n2 {A, B} [ age: 5 ])
EOS
printf 'n1:BType,\nn2:BType\n' > "$D/m.map"
timeout 120 ./target/debug/rudof pgschema-validate -s "$D/s.pgs" -m "$D/m.map" "$D/d.pg" -r compact > "$D/out" 2> "$D/err" || { cat "$D/err"; grep -q . "$D/out" || exit 1; }
cat "$D/out"
grep -q 'n1:BType: true' "$D/out" && grep -q 'n2:BType: false' "$D/out"
''')
pl("P01-a", "P01", [("prefixmap/src/prefix_map.rs", "            .max_by_key(|(_, rest)| iri.as_str().len() - rest.len())", "            .max_by_key(|(alias, rest)| (alias.is_empty(), iri.as_str().len() - rest.len()))")],
   "nested namespaces of which the shorter one belongs to the empty prefix", "IRIs are abbreviated with the empty prefix although a longer namespace matches",
   HEAD + r'''printf 'PREFIX : <http://e/>\nPREFIX x: <http://e/x>\n:S { x:p . ; :q . }\n' > "$D/s.shex"
timeout 120 ./target/debug/rudof shex -s "$D/s.shex" -r shexc -o "$D/t.shex" > /dev/null 2> "$D/err" || { cat "$D/err"; exit 1; }
cat "$D/t.shex"
grep -q 'x:p' "$D/t.shex"
''')
pl("H09-a", "H09", [("shacl/src/validator/constraints/sparql/basic_validator.rs", '        let select_with_path = self.select().replace("$PATH", &path_str);', '        let select_with_path = self.select().replacen("$PATH", &path_str, 1);')],
   "a query of a property shape with $PATH in two places", "the second $PATH is left as a variable and matches any predicate",
   HEAD + r'''cat > "$D/s.ttl" <<'EOS'
@prefix sh: <http://www.w3.org/ns/shacl#> .
@prefix : <http://e/> .
:S a sh:NodeShape ; sh:targetNode :a, :b ; sh:property [ sh:path :p ;
  sh:sparql [ sh:select "SELECT $this ?value WHERE { $this $PATH ?value . ?value $PATH ?other }" ] ] .
EOS
printf '@prefix : <http://e/> .\n:a :p :x . :x :q :y . :b :p :z . :z :p :y .\n' > "$D/d.ttl"
timeout 120 ./target/debug/rudof shacl-validate -s "$D/s.ttl" -m sparql -r ntriples "$D/d.ttl" > "$D/out" 2> "$D/err"
cat "$D/out"
[ "$(grep -o 'shacl#focusNode> <[^>]*>' "$D/out" | sed 's/.*<//')" = "http://e/b>" ]
''')
pl("C01-a", "C01", [("shapes_converter/src/tap_to_shex/tap2shex.rs", "    let max = get_max(statement.repeatable());", "    // a reference has one target, a list of them several\n    let max = get_max(statement.repeatable().filter(|r| *r || statement.value_shape().is_none()));\n    let max = if statement.value_shape().is_some() && statement.mandatory() == Some(true) {\n        max.filter(|m| *m != -1)\n    } else {\n        max\n    };")],
   "a statement with a value shape that is mandatory and repeatable", "the property may have one value only",
   HEAD + r'''printf 'shapeID,propertyID,mandatory,repeatable,valueShape\n:S,:p,true,true,:T\n:T,:q,true,false,\n' > "$D/p.csv"
timeout 120 ./target/debug/rudof convert -m dctap -s "$D/p.csv" -f csv -x shex -r shexc -o "$D/s.shex" > /dev/null 2> "$D/err" || { cat "$D/err"; exit 1; }
printf '@prefix : <http://example.org/> .\n:a :p :x, :y . :x :q 1 . :y :q 2 .\n' > "$D/d.ttl"
echo '<http://example.org/a>@<http://example.org/S>' > "$D/m.sm"
timeout 120 ./target/debug/rudof shex-validate -s "$D/s.shex" -m "$D/m.sm" "$D/d.ttl" -r json > "$D/out" 2> "$D/err"
cat "$D/out"
grep -q '"conformant"' "$D/out"
''')
