from mkplant import *
T = "@prefix : <http://e/> .\n"
ST = "@prefix sh: <http://www.w3.org/ns/shacl#> .\n@prefix : <http://e/> .\n@prefix rdfs: <http://www.w3.org/2000/01/rdf-schema#> .\n@prefix xsd: <http://www.w3.org/2001/XMLSchema#> .\n"
def shacl_demo(shapes, data, focus, modes="native"):
    """The focus nodes (sorted, with repetition) of the report's results."""
    return r'''#!/bin/bash
# validates with the rudof command built in the current directory and compares the focus nodes reported
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cat > "$D/s.ttl" <<'EOS'
%s
EOS
cat > "$D/d.ttl" <<'EOS'
%s
EOS
printf '%%s' '%s' | tr ' ' '\n' | grep . | sort > "$D/want"
for m in %s; do
timeout 120 ./target/debug/rudof shacl-validate -s "$D/s.ttl" -m $m -r ntriples "$D/d.ttl" > "$D/out" 2> "$D/err" || { grep -q . "$D/out" || { cat "$D/err"; exit 1; }; }
grep -o 'shacl#focusNode> <[^>]*>' "$D/out" | sed 's/.*<http:..e.//; s/>//' | sort > "$D/got"
diff "$D/want" "$D/got" || exit 1
done
''' % ((ST + shapes).strip(), (T + data).strip(), focus, modes)
V = "shacl/src/validator/"
plant("H01-a", "H01", [(V + "constraints/core/string_based/language_in.rs", 'lang_str.starts_with(&format!("{}-", l_str))', 'lang_str.starts_with(&l_str)')],
 "a value whose language tag begins with an admitted tag without being a subtag of it (fil, fi)", "sh:languageIn admits languages that are not in the list",
 shacl_demo(':S a sh:NodeShape; sh:targetSubjectsOf :p; sh:property [ sh:path :p; sh:languageIn ("fi" "en") ] .', ':a :p "x"@fil . :b :p "x"@fi-FI . :c :p "x"@EN . :d :p "x"@de .', "a d"))
plant("H02-a", "H02", [(V + "constraints/core/shape_based/qualified_value_shape.rs", """                    for sibling in self.siblings().iter() {""", """                    let mut siblings_valid = 0;
                    for sibling in self.siblings().iter() {"""),
 (V + "constraints/core/shape_based/qualified_value_shape.rs", """                        if sibling_is_valid {
                            is_valid = false;
                            break;
                        }
                    }
""", """                        if sibling_is_valid {
                            siblings_valid += 1;
                        }
                    }
                    is_valid = siblings_valid < self.siblings().len();
""")], "a property shape with at least two sibling qualified shapes and a value conforming to some of them but not all", "values of sibling shapes are counted although the shapes are disjoint",
 shacl_demo(''':S a sh:NodeShape; sh:targetNode :a, :b; sh:property [ sh:path :p; sh:qualifiedValueShape [ sh:class :A ]; sh:qualifiedMinCount 1; sh:qualifiedValueShapesDisjoint true ] ;
 sh:property [ sh:path :p; sh:qualifiedValueShape [ sh:class :B ]; sh:qualifiedMinCount 0 ] ; sh:property [ sh:path :p; sh:qualifiedValueShape [ sh:class :C ]; sh:qualifiedMinCount 0 ] .''',
 ":a :p :x . :x a :A, :B . :b :p :y . :y a :A .", "a"))
plant("H03-a", "H03", [(V + "constraints/core/property_pair/equals.rs", "                if !nodes_set.contains(pv) {", "                if !nodes_set.is_empty() && !nodes_set.contains(pv) {")],
 "a focus node without values for the path that has values for the other property", "sh:equals takes the empty set as equal to any set",
 shacl_demo(":S a sh:NodeShape; sh:targetNode :a, :b, :c; sh:property [ sh:path :p; sh:equals :q ] .", ":a :q 1 . :b :p 1 ; :q 1 . :c :p 1 .", "a c", "native sparql"))
plant("H04-a", "H04", [(V + "index/class.rs", "                    subclass_map.entry(parent).or_default().insert(child);", "                    subclass_map.entry(parent).or_insert_with(|| HashSet::from([child]));")],
 "a target class with two subclasses that have instances", "the instances of all but one of the direct subclasses are not focus nodes",
 shacl_demo(":S a sh:NodeShape; sh:targetClass :C; sh:property [ sh:path :p; sh:minCount 1 ] .", "@prefix rdfs: <http://www.w3.org/2000/01/rdf-schema#> .\n:A rdfs:subClassOf :C . :B rdfs:subClassOf :C . :a a :A . :b a :B . :c a :C .", "a b c"))
plant("H05-a", "H05", [("rudof_rdf/src/rdf_core/neighs_rdf.rs", """                let first_objects = self.objects_for_shacl_path(subject, path)?;
                all_objects.extend(first_objects.clone());

                let mut to_process: Vec<Self::Term> = first_objects.into_iter().collect();
                while let Some(current) = to_process.pop() {
                    let next_objects = self.objects_for_shacl_path(&current, path)?;
                    for obj in next_objects {
                        if all_objects.insert(obj.clone()) {""", """                let first_objects = self.objects_for_shacl_path(subject, path)?;
                all_objects.extend(first_objects.clone());

                let mut to_process: Vec<Self::Term> = first_objects.into_iter().collect();
                while let Some(current) = to_process.pop() {
                    let next_objects = self.objects_for_shacl_path(&current, path)?;
                    for obj in next_objects {
                        // the way back to the start has been followed already
                        if &obj != subject && all_objects.insert(obj.clone()) {""")],
 "a one-or-more path on a cycle of at least two nodes", "the start of a cycle is not among the nodes reached by sh:oneOrMorePath",
 shacl_demo(":S a sh:NodeShape; sh:targetNode :a, :c; sh:property [ sh:path [ sh:oneOrMorePath :p ]; sh:minCount 2 ] .", ":a :p :b . :b :p :a . :c :p :d .", "c"))
plant("H06-a", "H06", [(V + "constraints/core/value/class.rs", "ASK {{ {vn_sparql} rdf:type/rdfs:subClassOf* {class_sparql} }}", "ASK {{ {vn_sparql} rdf:type/rdfs:subClassOf? {class_sparql} }}")],
 "the query-based engine and an instance of a class two subclass steps below the one required", "the query-based engine reports a class violation that the native engine does not",
 shacl_demo(":S a sh:NodeShape; sh:targetNode :a, :b; sh:class :C .", "@prefix rdfs: <http://www.w3.org/2000/01/rdf-schema#> .\n:A rdfs:subClassOf :B . :B rdfs:subClassOf :C . :a a :A . :b a :D .", "b", "native sparql"))
plant("H07-a", "H07", [(V + "engine/validate.rs", "                    cached_results.extend(results);", "                    cached_results.extend(results.into_iter().filter(|r| r.source() == Some(self.id())));")],
 "a shape with nested property shapes that is validated for the same node twice in a run (by its own target and through another shape)", "the second use of the shape misses the results of its nested property shapes",
 shacl_demo(":S a sh:NodeShape; sh:targetNode :a; sh:property [ sh:path :q; sh:minCount 1 ] .\n:A a sh:NodeShape; sh:targetNode :a; sh:not :S .\n:U a sh:NodeShape; sh:targetNode :a; sh:not :S .", ":a :p :z .", "a"))
plant("G01-a", "G01", [("rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", """                self.graph
                    .triples_for_object(TermRef::from(o))
                    .map(TripleRef::into_owned),
            ),
            (None, None, None)""", """                self.graph
                    .triples_for_object(TermRef::from(o))
                    .map(TripleRef::into_owned)
                    .scan(HashSet::new(), |seen, t| Some(seen.insert(t.subject.clone()).then_some(t)))
                    .flatten(),
            ),
            (None, None, None)""")],
 "two triples with the same subject and object", "a pattern with a fixed object misses triples of subjects it has already listed",
 r'''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
printf '@prefix : <http://e/> .\n:a :p :x ; :q :x ; :r :x . :b :p :x .\n' > "$D/d.ttl"
timeout 60 ./target/debug/rudof node -n ':x' -m incoming "$D/d.ttl" > "$D/out" 2>&1 || { cat "$D/out"; exit 1; }
sed 's/\x1b\[[0-9;]*m//g' "$D/out" > "$D/o"; cat "$D/o"
for p in p q r; do grep -q ":$p" "$D/o" || { echo "no :$p"; exit 1; }; done
''')
demo = open("/verif/seeded/X06-a/demo.sh").read()
plant("X06-a", "X06", [("shex_validation/src/engine.rs", """        if let Some(cached) = self.typing.get(&key) {
            return Ok(cached.clone());
        }
""", """        match self.typing.get(&key) {
            Some(cached) => return Ok(cached.clone()),
            // the pairs already being checked and the nodes of the data bound the depth of a proof
            None if hyp.len() > self.typing.len() + 8 => {
                return pass(Reason::ShapeRef {
                    node: node.clone(),
                    idx: *label,
                });
            },
            None => {},
        }
""")], "a chain of more than eight references in which the first pair asked is far from the node that fails", "the deep pair is assumed to conform, unless other pairs were asked before", demo)
