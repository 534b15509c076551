//! Histories of updates and observations of RDF stores. Terms travel as N-Triples.
use oxrdf::{NamedNode, NamedOrBlankNode, Term, Triple};
use rudof_rdf::rdf_core::query::{QueryRDF, QueryResultFormat, VarName};
use rudof_rdf::rdf_core::{Any, AsyncRDF, BuildRDF, Matcher, NeighsRDF, RDFFormat, Rdf};
use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
use serde_json::{Value, json};
use sparql_service::RdfData;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;

#[derive(Clone)]
pub enum G {
    Mem(OxigraphInMemory),
    Data(RdfData),
}

type R = Result<Value, String>;
fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string().chars().take(300).collect()
}
fn term(v: &Value) -> Term {
    Term::from_str(v.as_str().unwrap()).unwrap_or_else(|x| panic!("harness: term {v} {x}"))
}
fn subj(v: &Value) -> NamedOrBlankNode {
    match term(v) {
        Term::NamedNode(n) => n.into(),
        Term::BlankNode(b) => b.into(),
        _ => panic!("harness: subject {v}"),
    }
}
fn pred(v: &Value) -> NamedNode {
    match term(v) {
        Term::NamedNode(n) => n,
        _ => panic!("harness: predicate {v}"),
    }
}
fn tr(t: Triple) -> Value {
    json!([t.subject.to_string(), t.predicate.to_string(), t.object.to_string()])
}
fn trs(i: impl Iterator<Item = Triple>) -> Value {
    json!(i.map(tr).collect::<Vec<_>>())
}

trait Ox: NeighsRDF<IRI = NamedNode, Subject = NamedOrBlankNode, Term = Term, Triple = Triple> {}
impl<T: NeighsRDF<IRI = NamedNode, Subject = NamedOrBlankNode, Term = Term, Triple = Triple>> Ox for T {}

fn matching<T: Ox>(g: &T, v: &Value, contains: bool) -> R
where
    T::Err: std::fmt::Display,
{
    fn go<T: Ox, S: Matcher<NamedOrBlankNode>, P: Matcher<NamedNode>, O: Matcher<Term>>(g: &T, s: &S, p: &P, o: &O, c: bool) -> R
    where
        T::Err: std::fmt::Display,
    {
        if c {
            g.contains(s, p, o).map(|b| json!(b)).map_err(e)
        } else {
            Ok(trs(g.triples_matching(s, p, o).map_err(e)?))
        }
    }
    let (s, p, o) = (&v["s"], &v["p"], &v["o"]);
    match (s.is_string(), p.is_string(), o.is_string()) {
        (true, true, true) => go(g, &subj(s), &pred(p), &term(o), contains),
        (true, true, false) => go(g, &subj(s), &pred(p), &Any, contains),
        (true, false, true) => go(g, &subj(s), &Any, &term(o), contains),
        (true, false, false) => go(g, &subj(s), &Any, &Any, contains),
        (false, true, true) => go(g, &Any, &pred(p), &term(o), contains),
        (false, true, false) => go(g, &Any, &pred(p), &Any, contains),
        (false, false, true) => go(g, &Any, &Any, &term(o), contains),
        (false, false, false) => go(g, &Any, &Any, &Any, contains),
    }
}

fn observe<T: Ox + QueryRDF>(g: &T, v: &Value) -> R
where
    <T as Rdf>::Err: std::fmt::Display,
{
    let preds = || v["ps"].as_array().unwrap().iter().map(pred).collect::<Vec<_>>();
    Ok(match v["op"].as_str().unwrap() {
        "triples" => trs(g.triples().map_err(e)?),
        "match" => matching(g, v, false)?,
        "contains" => matching(g, v, true)?,
        "shortcut" => {
            let (s, p, o) = (&v["s"], &v["p"], &v["o"]);
            match (s.is_string(), p.is_string(), o.is_string()) {
                (true, false, false) => trs(g.triples_with_subject(&subj(s)).map_err(e)?),
                (true, true, false) => trs(g.triples_with_subject_predicate(&subj(s), &pred(p)).map_err(e)?),
                (false, true, false) => trs(g.triples_with_predicate(&pred(p)).map_err(e)?),
                (false, true, true) => trs(g.triples_with_predicate_object(&pred(p), &term(o)).map_err(e)?),
                (false, false, true) => trs(g.triples_with_object(&term(o)).map_err(e)?),
                _ => matching(g, v, false)?,
            }
        },
        "out" => {
            let m = g.outgoing_arcs(&subj(&v["s"])).map_err(e)?;
            json!(m.iter().flat_map(|(p, os)| os.iter().map(move |o| json!([v["s"], p.to_string(), o.to_string()]))).collect::<Vec<_>>())
        },
        "in" => {
            let m = g.incoming_arcs(&term(&v["o"])).map_err(e)?;
            json!(m.iter().flat_map(|(p, ss)| ss.iter().map(move |s| json!([s.to_string(), p.to_string(), v["o"]]))).collect::<Vec<_>>())
        },
        "out_list" => {
            let (m, rest) = g.outgoing_arcs_from_list(&subj(&v["s"]), &preds()).map_err(e)?;
            let mut rest: Vec<String> = rest.iter().map(|p| p.to_string()).collect();
            rest.sort();
            rest.dedup();
            json!({"rest": rest, "arcs": m.iter().flat_map(|(p, os)| os.iter().map(move |o| json!([v["s"], p.to_string(), o.to_string()]))).collect::<Vec<_>>()})
        },
        "in_list" => {
            let m = g.incoming_arcs_from_list(&term(&v["o"]), &preds()).map_err(e)?;
            json!(m.iter().flat_map(|(p, ss)| ss.iter().map(move |s| json!([s.to_string(), p.to_string(), v["o"]]))).collect::<Vec<_>>())
        },
        "objects" => json!(g.objects_for(&term(&v["s"]), &pred(&v["p"])).map_err(e)?.iter().map(|t| t.to_string()).collect::<Vec<_>>()),
        "subjects" => json!(g.subjects_for(&pred(&v["p"]), &term(&v["o"])).map_err(e)?.iter().map(|t| t.to_string()).collect::<Vec<_>>()),
        "instances" => json!(g.shacl_instances_of(&term(&v["o"])).map_err(e)?.map(|t| t.to_string()).collect::<Vec<_>>()),
        "select" => {
            let r = g.query_select(v["query"].as_str().unwrap()).map_err(e)?;
            let vars: Vec<&str> = v["vars"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            json!(
                r.iter()
                    .map(|s| vars.iter().map(|x| s.find_solution(&VarName::new(x)).map(|t| t.to_string()).unwrap_or_default()).collect::<Vec<_>>())
                    .collect::<Vec<_>>()
            )
        },
        "ask" => json!(g.query_ask(v["query"].as_str().unwrap()).map_err(e)?),
        "construct" => {
            let t = g.query_construct(v["query"].as_str().unwrap(), &QueryResultFormat::Turtle).map_err(e)?;
            let h = OxigraphInMemory::from_str(&t, &RDFFormat::Turtle, None, &ReaderMode::Strict).map_err(e)?;
            trs(h.triples().map_err(e)?)
        },
        x => panic!("harness: {x}"),
    })
}

fn step(gs: &mut [G], v: &Value) -> R {
    let i = v["g"].as_u64().unwrap_or(1) as usize - 1;
    let op = v["op"].as_str().unwrap();
    match op {
        "new" => {
            gs[i] = if v["kind"] == "mem" { G::Mem(OxigraphInMemory::new()) } else { G::Data(RdfData::new()) };
            return Ok(Value::Null);
        },
        // what `from` writes in a format, read back in that format
        "reload" => {
            let format = RDFFormat::from_str(v["format"].as_str().unwrap()).unwrap_or_else(|x| panic!("harness: format {x}"));
            let mut buf = Vec::new();
            gs[i] = match &gs[v["from"].as_u64().unwrap() as usize - 1] {
                G::Mem(g) => {
                    BuildRDF::serialize(g, &format, &mut buf).map_err(|x| format!("serialize: {x}"))?;
                    let text = String::from_utf8_lossy(&buf).into_owned();
                    G::Mem(OxigraphInMemory::from_reader(&mut buf.as_slice(), "data", &format, None, &ReaderMode::Strict).map_err(|x| format!("{x} in {text}"))?)
                },
                G::Data(g) => {
                    BuildRDF::serialize(g, &format, &mut buf).map_err(|x| format!("serialize: {x}"))?;
                    let text = String::from_utf8_lossy(&buf).into_owned();
                    G::Data(RdfData::from_str(&text, &format, None, &ReaderMode::Strict).map_err(|x| format!("{x} in {text}"))?)
                },
            };
            return Ok(Value::Null);
        },
        "clone" => {
            gs[i] = gs[v["from"].as_u64().unwrap() as usize - 1].clone();
            return Ok(Value::Null);
        },
        _ => {},
    }
    let mode = || ReaderMode::from_str(v["mode"].as_str().unwrap_or("strict")).unwrap();
    let format = || RDFFormat::from_str(v["format"].as_str().unwrap()).unwrap_or_else(|x| panic!("harness: format {x}"));
    macro_rules! both {
        ($g:ident => $x:expr) => {
            match &mut gs[i] {
                G::Mem($g) => $x,
                G::Data($g) => $x,
            }
        };
    }
    match op {
        "merge" => both!(g => g.merge_from_reader(&mut v["data"].as_str().unwrap().as_bytes(), "data", &format(), v["base"].as_str(), &mode()).map_err(e)).map(|_| Value::Null),
        "add" => both!(g => g.add_triple(subj(&v["s"]), pred(&v["p"]), term(&v["o"])).map_err(e)).map(|_| Value::Null),
        "add_ref" => match &mut gs[i] {
            G::Mem(g) => g.add_triple_ref(&subj(&v["s"]), &pred(&v["p"]), &term(&v["o"])).map_err(e).map(|_| Value::Null),
            G::Data(g) => g.add_triple(subj(&v["s"]), pred(&v["p"]), term(&v["o"])).map_err(e).map(|_| Value::Null),
        },
        "remove" => both!(g => g.remove_triple(subj(&v["s"]), pred(&v["p"]), term(&v["o"])).map_err(e)).map(|_| Value::Null),
        "prefix" => {
            let iri = rudof_iri::IriS::new_unchecked(v["iri"].as_str().unwrap());
            both!(g => g.add_prefix(v["alias"].as_str().unwrap(), &iri));
            Ok(Value::Null)
        },
        "type" => both!(g => g.add_type(subj(&v["s"]), term(&v["o"])).map_err(e)).map(|_| Value::Null),
        // a blank node generated by the store becomes the subject of a new triple
        "bnode" => both!(g => {
            let b = g.add_bnode().map_err(e)?;
            g.add_triple(b.clone(), pred(&v["p"]), term(&v["o"])).map_err(e)?;
            Ok(json!(b.to_string()))
        }),
        "len" => match &gs[i] {
            G::Mem(g) => Ok(json!([g.len(), g.is_empty() as u8, g.quads().count()])),
            G::Data(g) => {
                let n = g.all_triples().map_err(e)?.count();
                Ok(json!([n, (n == 0) as u8, n]))
            },
        },
        "serialize" => {
            let mut buf = Vec::new();
            both!(g => BuildRDF::serialize(g, &format(), &mut buf).map_err(e))?;
            Ok(json!(String::from_utf8_lossy(&buf)))
        },
        "async_preds" | "async_objects" | "async_subjects" => match &gs[i] {
            G::Mem(g) => block(async {
                Ok(match op {
                    "async_preds" => json!(g.get_predicates_subject(&subj(&v["s"])).await.map_err(e)?.iter().map(|t| t.to_string()).collect::<Vec<_>>()),
                    "async_objects" => {
                        json!(g.get_objects_for_subject_predicate(&subj(&v["s"]), &pred(&v["p"])).await.map_err(e)?.iter().map(|t| t.to_string()).collect::<Vec<_>>())
                    },
                    _ => json!(g.get_subjects_for_object_predicate(&term(&v["o"]), &pred(&v["p"])).await.map_err(e)?.iter().map(|t| t.to_string()).collect::<Vec<_>>()),
                })
            }),
            G::Data(_) => Ok(json!("n/a")),
        },
        "select" | "ask" | "construct" => match &mut gs[i] {
            G::Mem(g) => {
                g.ensure_store().map_err(e)?;
                observe(g, v)
            },
            G::Data(g) => {
                g.check_store().map_err(e)?;
                observe(g, v)
            },
        },
        _ => match &gs[i] {
            G::Mem(g) => observe(g, v),
            G::Data(g) => observe(g, v),
        },
    }
}

fn block<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}

pub fn run(cmd: &Value) -> Value {
    let mut gs = vec![G::Mem(OxigraphInMemory::new()), G::Data(RdfData::new())];
    let mut out = Vec::new();
    for v in cmd["steps"].as_array().unwrap() {
        match catch_unwind(AssertUnwindSafe(|| step(&mut gs, v))) {
            Ok(Ok(x)) => out.push(json!({"ok": x})),
            Ok(Err(x)) => out.push(json!({"err": x})),
            Err(x) => {
                out.push(json!({"panic": crate::panic_msg(&x)}));
                break;
            },
        }
    }
    json!(out)
}
