from mkplant import *
P = "PREFIX : <http://e/>\n"; T = "@prefix : <http://e/> .\n"
plant("R01-a", "R01", [("rbe/src/rbe_struct.rs", """                card: Cardinality::from(Min::from(min), max),
            },
            has_repeats: v.has_repeats,""", """                card: Cardinality::from(Min::from(min), max.clone()),
            },
            // a single copy of the body cannot mention a symbol twice
            has_repeats: v.has_repeats && max != Max::IntMax(1),""")],
 "a group with maximum 1 whose body mentions the same symbol twice", "the interval algorithm is chosen for expressions with repeated symbols and accepts/rejects wrongly",
 r'''#!/bin/bash
R=$PWD; D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cat > "$D/Cargo.toml" <<EOS
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
rbe = { path = "$R/rbe" }
EOS
cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/src/main.rs" <<'EOS'
use ::rbe::*;
fn main() {
    // (a ; b | a ; c){0,1}
    let s = |x: char| RbeStruct::symbol(x, 1, Max::IntMax(1));
    let e = RbeStruct::repeat(RbeStruct::or(vec![RbeStruct::and(vec![s('a'), s('b')]), RbeStruct::and(vec![s('a'), s('c')])]), 0, Max::IntMax(1));
    for (bag, want) in [(vec!['a', 'b'], true), (vec!['a', 'c'], true), (vec!['a'], false), (vec!['a', 'a', 'b', 'c'], false), (vec![], true)] {
        let b = Bag::from_iter(bag.clone());
        let got = e.match_bag(&b, false, RbeAlgorithm::Interval).is_ok();
        assert_eq!(got, want, "{bag:?}");
    }
}
EOS
cd "$D" && CARGO_TARGET_DIR="$D/t" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu timeout 280 cargo run -q --offline
''')
plant("X01-a", "X01", [("shex_ast/src/ir/ast2ir.rs", "            c if c.is_star() => RbeStruct::star(rbe),\n            c if c.is_plus()", "            c if c.nullable() && !c.is_0_0() && c.max != rbe::Max::IntMax(1) => RbeStruct::star(rbe),\n            c if c.is_plus()")],
 "a group with cardinality {0,n}, n >= 2, and more than n copies in the data", "the maximum of an optional repeated group is lost",
 shex_demo(P + ":S { (:p [1 2 3 4] ; :q [1 2 3 4]){0,2} }", T + ":n :p 1,2,3 ; :q 1,2,3 . :m :p 1,2 ; :q 3,4 . :o :p 1 .", ":n@:S,:m@:S,:o@:S", [":n :S nonconformant", ":m :S conformant", ":o :S nonconformant"]))
plant("X02-a", "X02", [("shex_ast/src/ir/shape_expr.rs", """            ShapeExpr::ShapeAnd { exprs, .. } => exprs.iter().fold(HashMap::new(), |mut acc, expr| {
                let refs = if visited.insert(*expr) {
                    schema
                        .find_shape_idx(expr)
                        .map(|info| info.expr().references_visited(schema, visited))
                        .unwrap_or_default()
                } else {
                    HashMap::new()
                };
                for (p, v) in refs {
                    acc.entry(p).or_default().extend(v);
                }
                acc""", """            ShapeExpr::ShapeAnd { exprs, .. } => exprs.iter().fold(HashMap::new(), |mut acc, expr| {
                let refs = if visited.insert(*expr) {
                    schema
                        .find_shape_idx(expr)
                        .map(|info| info.expr().references_visited(schema, visited))
                        .unwrap_or_default()
                } else {
                    HashMap::new()
                };
                for (p, v) in refs {
                    acc.entry(p).or_insert(v);
                }
                acc""")],
 "a conjunction whose conjuncts constrain the same predicate with references to different shapes", "the reference of the later conjunct is never proved, and the node is rejected",
 shex_demo(P + ":S { :p @:A } AND { :p @:B }\n:A { :a . }\n:B { :b . }", T + ":n :p :x . :x :a 1 ; :b 1 . :m :p :y . :y :a 1 .", ":n@:S,:m@:S", [":n :S conformant", ":m :S nonconformant"]))
plant("X03-a", "X03", [("shex_ast/src/ir/dependency_graph.rs", "                    if component.contains(&edge.target()) && edge.weight().is_neg() {", "                    if component.len() > 1 && component.contains(&edge.target()) && edge.weight().is_neg() {")],
 "a shape that depends on itself directly through a negation (no second shape in the cycle)", "the schema is accepted",
 r'''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
printf 'PREFIX : <http://e/>\n:S { :p NOT @:S }\n' > "$D/s.shex"; printf '@prefix : <http://e/> .\n:n :p :n .\n' > "$D/d.ttl"; echo ':n@:S' > "$D/m.sm"
if timeout 60 ./target/debug/rudof shex-validate -s "$D/s.shex" -m "$D/m.sm" "$D/d.ttl" -r json > "$D/o" 2>&1; then echo accepted; cat "$D/o"; exit 1; fi
printf 'PREFIX : <http://e/>\n:S { :p NOT @:T }\n:T { :p @:T ? }\n' > "$D/s.shex"
timeout 60 ./target/debug/rudof shex-validate -s "$D/s.shex" -m "$D/m.sm" "$D/d.ttl" -r json > "$D/o" 2>&1; grep -q '"nonconformant"' "$D/o"
''')
plant("X04-a", "X04", [("shex_ast/src/ir/value_set_value.rs", """                            LanguageExclusion::LanguageStem(stem) => {
                                if let Object::Literal(ConcreteLiteral::StringLiteral { lang: Some(l), .. }) = object
                                    && lang_stem_matches(stem.as_str(), l.as_str())""", """                            LanguageExclusion::LanguageStem(stem) => {
                                if let Object::Literal(ConcreteLiteral::StringLiteral { lang: Some(l), .. }) = object
                                    && l.as_str().starts_with(stem.as_str())""")],
 "a language range with an excluded stem, and a tag that starts with the stem's characters without being a subtag of it", "the exclusion of @es~ also excludes @est",
 shex_demo(P + ":S { :p [ @~ - @es~ - @fr ] }", T + ':n :p "a"@est . :m :p "a"@es-MX . :o :p "a"@fr-BE .', ":n@:S,:m@:S,:o@:S", [":n :S conformant", ":m :S nonconformant", ":o :S conformant"]))
