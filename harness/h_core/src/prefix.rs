//! Histories of prefix maps: standing alone, inside a graph and inside RDF data.
use prefixmap::iri::deref_iri::DerefIri;
use prefixmap::{IriRef, PrefixMap};
use rudof_iri::IriS;
use rudof_rdf::rdf_core::{BuildRDF, Rdf};
use rudof_rdf::rdf_impl::OxigraphInMemory;
use serde_json::{Value, json};
use sparql_service::RdfData;
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;

enum P {
    Map(PrefixMap),
    Mem(OxigraphInMemory),
    Data(RdfData),
}
use P::*;

fn s(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}
fn cps(x: &str) -> Value {
    json!(x.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn iri(v: &Value) -> IriS {
    IriS::from_str(&s(v)).expect("harness: iri")
}
fn some(x: Option<String>) -> Value {
    match x {
        Some(i) => json!({"k": "iri", "v": cps(&i)}),
        None => json!({"k": "unbound"}),
    }
}
fn res<E>(x: Result<IriS, E>) -> Value {
    some(x.ok().map(|i| i.as_str().to_string()))
}
fn entries(v: &Value) -> Vec<(String, IriS)> {
    v.as_array().unwrap().iter().map(|e| (s(&e[0]), iri(&e[1]))).collect()
}
fn pm_of(v: &Value, how: &str) -> PrefixMap {
    let es = entries(v);
    match how {
        "hash" => {
            let h: HashMap<String, String> = es.iter().map(|(a, i)| (a.clone(), i.to_string())).collect();
            let h: HashMap<&str, &str> = h.iter().map(|(a, i)| (a.as_str(), i.as_str())).collect();
            PrefixMap::try_from(h).unwrap()
        },
        "serde" => {
            let mut pm = PrefixMap::new();
            for (a, i) in es {
                pm.add_prefix(a, i);
            }
            serde_json::from_str(&serde_json::to_string(&pm).unwrap()).unwrap()
        },
        _ => {
            let mut pm = PrefixMap::new();
            for (a, i) in es {
                pm.add_prefix(a, i);
            }
            pm
        },
    }
}
impl P {
    fn pm(&self) -> PrefixMap {
        match self {
            Map(p) => p.clone(),
            Mem(g) => Rdf::prefixmap(g).unwrap_or_default(),
            Data(g) => Rdf::prefixmap(g).unwrap_or_default(),
        }
    }
    fn new(kind: &str) -> P {
        match kind {
            "mem" => Mem(OxigraphInMemory::new()),
            "data" => Data(RdfData::new()),
            _ => Map(PrefixMap::new()),
        }
    }
    fn merge(&mut self, o: PrefixMap) {
        match self {
            Map(p) => p.merge(o),
            Mem(g) => g.merge_prefixes(o),
            Data(g) => g.merge_prefixes(o),
        }
    }
    fn set(&mut self, o: PrefixMap) {
        match self {
            Map(p) => *p = o,
            Mem(g) => g.set_prefix_map(o),
            Data(g) => g.set_prefix_map(o),
        }
    }
    fn resolve_local(&self, a: &str, l: &str, how: &str) -> Value {
        let r = IriRef::prefixed(a, l);
        match how {
            "deref" => res(r.deref_iri(None, Some(&self.pm())).map(IriS::from)),
            "deref_base" => res(r
                .deref_iri(Some(&IriS::new_unchecked("http://base/")), Some(&self.pm()))
                .map(IriS::from)),
            "iriref" => res(self.pm().resolve_iriref(r)),
            "get" => res(r.get_iri_prefixmap(&self.pm()).map(|c| c.into_owned())),
            "map" => res(self.pm().resolve_prefix_local(a, l)),
            _ => match self {
                Map(p) => res(p.resolve_prefix_local(a, l)),
                Mem(g) => res(Rdf::resolve_prefix_local(g, a, l)),
                Data(g) => res(Rdf::resolve_prefix_local(g, a, l)),
            },
        }
    }
    fn qualify(&self, i: &IriS) -> String {
        match self {
            Map(p) => p.qualify(i),
            Mem(g) => Rdf::qualify_iri(g, i.named_node()),
            Data(g) => Rdf::qualify_iri(g, i.named_node()),
        }
    }
}

fn step(ms: &mut [P], v: &Value) -> Value {
    let g = v["g"].as_u64().unwrap() as usize - 1;
    let how = v["how"].as_str().unwrap_or("");
    match v["op"].as_str().unwrap() {
        "new" => {
            ms[g] = P::new(how);
            json!("")
        },
        "add" => {
            let (a, i) = (s(&v["a"]), iri(&v["i"]));
            match &mut ms[g] {
                Map(p) => p.add_prefix(&a, i),
                Mem(x) => x.add_prefix(&a, &i),
                Data(x) => x.add_prefix(&a, &i),
            }
            json!("")
        },
        "remove" => {
            let mut p = ms[g].pm();
            let r = p.remove_prefix(&s(&v["a"]));
            ms[g].set(p);
            some(r.map(|i| i.as_str().to_string()))
        },
        "merge" => {
            let o = pm_of(&v["es"], how);
            ms[g].merge(o);
            json!("")
        },
        "merge_with" => {
            let o = ms[1 - g].pm();
            ms[g].merge(o);
            json!("")
        },
        "set" => {
            let o = pm_of(&v["es"], how);
            ms[g].set(o);
            json!("")
        },
        "clone" => {
            let o = ms[1 - g].pm();
            ms[g].set(o);
            json!("")
        },
        "find" => some(ms[g].pm().find(&s(&v["a"])).map(|i| i.as_str().to_string())),
        "resolve_local" => ms[g].resolve_local(&s(&v["a"]), &s(&v["l"]), how),
        "resolve" => match &ms[g] {
            Mem(x) => some(x.resolve(&s(&v["s"])).ok().map(|i| i.as_str().to_string())),
            m => res(m.pm().resolve(&s(&v["s"]))),
        },
        "qualify" => cps(&match how {
            "length" => ms[g].pm().without_rich_qualifying().qualify_and_length(&iri(&v["i"])).0,
            "map" => ms[g].pm().without_rich_qualifying().qualify(&iri(&v["i"])),
            _ => ms[g].qualify(&iri(&v["i"])),
        }),
        "qualify_optional" => some(ms[g].pm().qualify_optional(&iri(&v["i"]))),
        "qualify_local" => some(ms[g].pm().qualify_local(&iri(&v["i"]))),
        "round_trip" => {
            let p = ms[g].pm();
            match p.qualify_optional(&iri(&v["i"])) {
                None => some(None),
                Some(n) => res(p.resolve(&n)),
            }
        },
        "entries" => {
            let p = ms[g].pm();
            let it: Vec<(String, IriS)> = match how {
                "into" => p.collect(),
                _ => p.iter().map(|(a, i)| (a.clone(), i.clone())).collect(),
            };
            json!(it.iter().map(|(a, i)| json!([cps(a), cps(i.as_str())])).collect::<Vec<_>>())
        },
        "aliases" => json!(ms[g].pm().aliases().map(|a| cps(a)).collect::<Vec<_>>()),
        "len" => json!(ms[g].pm().len()),
        "eq" => {
            let (p, q) = (ms[0].pm(), ms[1].pm());
            let h = |p: &PrefixMap| {
                let mut h = DefaultHasher::new();
                p.hash(&mut h);
                h.finish()
            };
            json!({"eq": p == q, "hash": h(&p) == h(&q)})
        },
        x => panic!("harness: {x}"),
    }
}

pub fn run(c: &Value) -> Value {
    let mut ms = [Map(PrefixMap::new()), Map(PrefixMap::new())];
    let mut out = vec![];
    for v in c["ops"].as_array().unwrap() {
        match catch_unwind(AssertUnwindSafe(|| step(&mut ms, v))) {
            Ok(x) => out.push(json!({"fail": "", "v": x})),
            Err(e) => {
                out.push(json!({"fail": crate::panic_msg(&e), "v": ""}));
                break;
            },
        }
    }
    json!(out)
}
