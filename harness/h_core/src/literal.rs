//! Comparison of literals in every representation the library gives them.
use prefixmap::IriRef;
use rudof_iri::IriS;
use rudof_rdf::rdf_core::Rdf;
use rudof_rdf::rdf_core::term::Object;
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
use rudof_rdf::rdf_impl::OxigraphInMemory;
use serde_json::{Value, json};
use std::cmp::Ordering;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;

fn ord(o: Option<Ordering>) -> i32 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 2,
    }
}
fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// runs of the comparison that panic are reported as such
fn safe<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn cmp(c: &Value) -> Value {
    let mut items: Vec<(usize, &str, ConcreteLiteral)> = Vec::new();
    let mut terms: Vec<(usize, oxrdf::Term)> = Vec::new();
    for (i, l) in c["lits"].as_array().unwrap().iter().enumerate() {
        let s: String = l["s"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
        let dt = l["dt"].as_str().unwrap();
        let lang = l["lang"].as_str().unwrap();
        let o = if !lang.is_empty() {
            oxrdf::Literal::new_language_tagged_literal(&s, lang).unwrap()
        } else {
            oxrdf::Literal::new_typed_literal(&s, oxrdf::NamedNode::new(dt).unwrap())
        };
        terms.push((i + 1, oxrdf::Term::Literal(o.clone())));
        let mut add = |f: &'static str, x: Option<ConcreteLiteral>| {
            if let Some(x) = x {
                items.push((i + 1, f, x));
            }
        };
        add("rdf", safe(|| ConcreteLiteral::try_from(o.clone()).ok()).flatten());
        if lang.is_empty() {
            let raw = ConcreteLiteral::lit_datatype(&s, &IriRef::Iri(IriS::from_str(dt).unwrap()));
            if !dt.ends_with("#string") {
                add("raw", Some(raw.clone()));
            }
            if !dt.ends_with("#string") {
            add("checked", safe(|| raw.into_checked_literal().ok()).flatten());
            }
            if dt.ends_with("#string") {
                add("plain", Some(ConcreteLiteral::str(&s)));
            }
        } else {
            add("plain", Lang::new(lang).ok().map(|l| ConcreteLiteral::lang_str(&s, l)));
        }
    }
    let n = items.len();
    let mut fail = vec![];
    let mut cmp = vec![vec![9; n]; n];
    let mut eq = vec![vec![false; n]; n];
    let mut same_hash = vec![vec![false; n]; n];
    let mut lt = vec![vec![9; n]; n];
    let mut total = vec![vec![9; n]; n];
    for a in 0..n {
        for b in 0..n {
            let (x, y) = (&items[a].2, &items[b].2);
            let what = |w: &str| format!("{w}: {x:?} {y:?}");
            match safe(|| (ord(x.partial_cmp(y)), x == y, h(x) == h(y))) {
                Some((o, e, g)) => {
                    cmp[a][b] = o;
                    eq[a][b] = e;
                    same_hash[a][b] = g;
                },
                None => fail.push(what("partial_cmp")),
            }
            // 0: neither, 1: less or equal only, 3: less
            if let (ConcreteLiteral::NumericLiteral(x), ConcreteLiteral::NumericLiteral(y)) = (x, y) {
                let f = |x: &NumericLiteral, y: &NumericLiteral| i32::from(x.less_than_or_eq(y)) + 2 * i32::from(x.less_than(y));
                match safe(|| f(x, y)) {
                    Some(v) => lt[a][b] = v,
                    None => fail.push(what("less_than")),
                }
            }
            let (p, q) = (Object::Literal(x.clone()), Object::Literal(y.clone()));
            match safe(|| ord(Some(p.cmp(&q)))) {
                Some(v) => total[a][b] = v,
                None => fail.push(what("cmp")),
            }
            if safe(|| ord(Some(x.cmp(y)))) != Some(total[a][b]) {
                fail.push(what("order of literals and objects"));
            }
        }
    }
    let g = OxigraphInMemory::default();
    let m = terms.len();
    let mut tcmp = vec![vec![9; m]; m];
    let mut teq = vec![vec![false; m]; m];
    for a in 0..m {
        for b in 0..m {
            let (x, y) = (&terms[a].1, &terms[b].1);
            match safe(|| (ord(g.compare(x, y).ok()), g.equals(x, y))) {
                Some((o, e)) => {
                    tcmp[a][b] = o;
                    teq[a][b] = e;
                },
                None => fail.push(format!("compare {x} {y}")),
            }
        }
    }
    // sorting many copies must not panic and must respect the order
    let mut many: Vec<(usize, Object)> = vec![];
    for _ in 0..(60 / n.max(1) + 1) {
        for (a, i) in items.iter().enumerate() {
            many.push((a + 1, Object::Literal(i.2.clone())));
        }
    }
    let k = many.len();
    many.sort_by_key(|(a, _)| (a * 7919) % 101);
    let sorted = safe(|| {
        let mut v = many.clone();
        v.sort_by(|x, y| x.1.cmp(&y.1));
        v
    });
    if sorted.as_ref().map(|v| v.len()) != Some(k) {
        fail.push("sort".to_string());
    }
    json!({
        "term": items.iter().map(|i| i.0).collect::<Vec<_>>(),
        "form": items.iter().map(|i| i.1).collect::<Vec<_>>(),
        "kind": items.iter().map(|i| match &i.2 {
            ConcreteLiteral::NumericLiteral(_) => "num",
            ConcreteLiteral::DatatypeLiteral{..} => "lex",
            ConcreteLiteral::WrongDatatypeLiteral{..} => "wrong",
            ConcreteLiteral::StringLiteral{..} => "str",
            ConcreteLiteral::DatetimeLiteral(_) => "dt",
            ConcreteLiteral::BooleanLiteral(_) => "bool",
        }).collect::<Vec<_>>(),
        "cmp": cmp, "eq": eq, "hash": same_hash, "lt": lt, "total": total, "tcmp": tcmp, "teq": teq,
        "sorted": sorted.unwrap_or_default().iter().map(|x| x.0).collect::<Vec<_>>(),
        "fail": fail.join(" | "),
    })
}
