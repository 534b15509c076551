from mkplant import *
P = "PREFIX : <http://e/>\n"; T = "@prefix : <http://e/> .\n"
plant("X02-a", "X02", [("shex_validation/src/engine.rs", """        for (n1, l1) in cleaned_candidates {
            match self.prove(&n1, &l1, hyp, schema, rdf)? {
                Either::Right(_reasons) => {
                    typing.insert_passed(n1.clone(), l1);
                },
                Either::Left(errors) => {
""", """        let mut refuted = HashSet::new();
        for (n1, l1) in cleaned_candidates {
            // a neighbour that has been refuted already makes this node fail
            if n1 != *node && refuted.contains(&n1) {
                continue;
            }
            match self.prove(&n1, &l1, hyp, schema, rdf)? {
                Either::Right(_reasons) => {
                    typing.insert_passed(n1.clone(), l1);
                },
                Either::Left(errors) => {
                    refuted.insert(n1.clone());
""")],
 "two triple constraints on the same predicate referring to different shapes, and a neighbour that conforms to only one of them", "a reference that holds is taken as refuted (depending on the order in which the candidates are proved)",
 shex_demo(P + ":S { :p @:A ; :p @:B }\n:A { :a [1] }\n:B { :a [2] }", T + "".join(f":n{i} :p :a{i} , :b{i} . :a{i} :a 1 . :b{i} :a 2 .\n" for i in range(12)), ",".join(f":n{i}@:S" for i in range(12)), [f":n{i} :S conformant" for i in range(12)]))
plant("X03-a", "X03", [("shex_ast/src/ir/dependency_graph.rs", "                    if component.contains(&edge.target()) && edge.weight().is_neg() {", "                    if component.len() > 1 && component.contains(&edge.target()) && edge.weight().is_neg() {")],
 "a shape whose only negated cycle is the one with itself through EXTRA (no second shape in the cycle)", "the schema is accepted",
 r'''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
printf 'PREFIX : <http://e/>\n:S EXTRA :p { :p @:S }\n' > "$D/s.shex"; printf '@prefix : <http://e/> .\n:n :p :n .\n' > "$D/d.ttl"; echo ':n@:S' > "$D/m.sm"
if timeout 60 ./target/debug/rudof shex-validate -s "$D/s.shex" -m "$D/m.sm" "$D/d.ttl" -r json > "$D/o" 2>&1; then echo accepted; cat "$D/o"; exit 1; fi
printf 'PREFIX : <http://e/>\n:S EXTRA :p { :p @:T }\n:T { :p @:T ? }\n' > "$D/s.shex"
timeout 60 ./target/debug/rudof shex-validate -s "$D/s.shex" -m "$D/m.sm" "$D/d.ttl" -r json > "$D/o" 2>&1; grep -q 'conformant' "$D/o"
''')
PAIRS = ["1 2", "1 3", "1 4", "2 3", "2 4", "3 4"]
plant("X05-a", "X05", [("shex_validation/src/class_partitions.rs", """            if next_permutation(p) {
                return true;
            }
            p.sort_unstable(); // wrapped: reset and carry
""", """            if next_permutation(p) {
                return true;
            }
            if p.len() > 2 {
                return false; // all the permutations of the class have been produced
            }
            p.sort_unstable(); // wrapped: reset and carry
""")],
 "an extended shape whose arcs form two classes with several values each, the second needing another permutation than the first one tried", "some partitions of the arcs are never tried",
 shex_demo(P + "".join(f":G{a}{b} {{ :q [{PAIRS[b]}] {{2}} }}\n:P{a}{b} EXTENDS @:G{a}{b} {{ :p [{PAIRS[a]}] {{2}} }}\n:C{a}{b} EXTENDS @:P{a}{b} {{ :p [{PAIRS[5-a]}] {{2}} ; :q [{PAIRS[5-b]}] {{2}} }}\n" for a in range(6) for b in range(6)),
   T + ":n :p 1,2,3,4 ; :q 1,2,3,4 .", ",".join(f":n@:C{a}{b}" for a in range(6) for b in range(6)), [f":n :C{a}{b} conformant" for a in range(6) for b in range(6)]))
plant("X06-a", "X06", [("shex_validation/src/engine.rs", """        if let Some(cached) = self.typing.get(&key) {
            return Ok(cached.clone());
        }
""", """        if let Some(cached) = self.typing.get(&key) {
            return Ok(cached.clone());
        }
        // the pairs already being checked and the nodes of the data bound the depth of a proof
        if hyp.len() > self.typing.len() + 8 {
            return pass(Reason::ShapeRef {
                node: node.clone(),
                idx: *label,
            });
        }
""")],
 "a chain of more than eight references in which the first pair asked is far from the node that fails", "the deep pair is assumed to conform, unless other pairs were asked before",
 shex_demo(P + ":S { :p @:S | :q [1] }", T + "".join(f":n{i} :p :n{i+1} .\n" for i in range(14)) + ":n14 :q 2 .", ":n0@:S,:n14@:S", [":n0 :S nonconformant", ":n14 :S nonconformant"]))
