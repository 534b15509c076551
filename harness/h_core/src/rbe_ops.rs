use rbe::deriv_error::DerivError;
use rbe::match_cond::MatchKind;
use rbe::rbe_error::RbeError;
use rbe::{Bag, Cardinality, Component, MatchCond, Max, Min, Pending, Rbe, RbeAlgorithm, RbeStruct, RbeTable, SingleCond};
use serde::Serialize;
use serde_json::{Value as J, json};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn max(v: &J) -> Max {
    match v.as_i64().unwrap() {
        n if n < 0 => Max::Unbounded,
        n => Max::IntMax(n as usize),
    }
}

/// Expression built with the `RbeStruct` constructors (the ones the ShEx compiler uses).
fn expr<A: Hash + Eq + Display + Clone + Debug>(e: &J, sym: &dyn Fn(usize) -> A) -> RbeStruct<A> {
    let subs = || -> Vec<RbeStruct<A>> { e["es"].as_array().unwrap().iter().map(|x| expr(x, sym)).collect() };
    match e["k"].as_str().unwrap() {
        "empty" => RbeStruct::empty(),
        "sym" => RbeStruct::symbol(sym(e["v"].as_u64().unwrap() as usize), e["min"].as_u64().unwrap() as usize, max(&e["max"])),
        "and" => RbeStruct::and(subs()),
        "or" => RbeStruct::or(subs()),
        "star" => RbeStruct::star(expr(&e["e"], sym)),
        "plus" => RbeStruct::plus(expr(&e["e"], sym)),
        "opt" => RbeStruct::opt(expr(&e["e"], sym)),
        "rep" => RbeStruct::repeat(expr(&e["e"], sym), e["min"].as_u64().unwrap() as usize, max(&e["max"])),
        k => panic!("harness: unknown rbe kind {k}"),
    }
}

/// The same expression built as a plain `Rbe` (through its public enum).
fn plain<A: Hash + Eq + Display + Clone + Debug>(e: &J, sym: &dyn Fn(usize) -> A) -> Rbe<A> {
    let card = || Cardinality::from(Min::from(e["min"].as_u64().unwrap() as usize), max(&e["max"]));
    let subs = || -> Vec<Rbe<A>> { e["es"].as_array().unwrap().iter().map(|x| plain(x, sym)).collect() };
    let one = || Box::new(plain(&e["e"], sym));
    match e["k"].as_str().unwrap() {
        "empty" => Rbe::Empty,
        "sym" => Rbe::Symbol { value: sym(e["v"].as_u64().unwrap() as usize), card: card() },
        "and" => Rbe::And { values: subs() },
        "or" => Rbe::Or { values: subs() },
        "star" => Rbe::Star { value: one() },
        "plus" => Rbe::Plus { value: one() },
        "opt" => Rbe::Or { values: vec![plain(&e["e"], sym), Rbe::Empty] },
        "rep" => Rbe::Repeat { value: one(), card: card() },
        k => panic!("harness: unknown rbe kind {k}"),
    }
}

fn verdict<T, E>(f: impl FnOnce() -> Result<T, E>) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(_)) => json!(true),
        Ok(Err(_)) => json!(false),
        Err(_) => json!("panic"),
    }
}

/// {"expr":E,"cases":[{"bag":[sym...],"open":bool}]}
pub fn rbe(c: &J) -> J {
    let s = expr(&c["expr"], &|n| n as u32);
    let p = plain(&c["expr"], &|n| n as u32);
    let mut out = Vec::new();
    for case in c["cases"].as_array().unwrap() {
        let open = case["open"].as_bool().unwrap();
        let syms: Vec<u32> = case["bag"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let mut bag: Bag<u32> = Bag::new();
        for x in &syms {
            bag.insert(*x);
        }
        let d: &dyn Fn() -> Result<(), DerivError<u32>> = &|| s.match_bag(&bag, open, RbeAlgorithm::Derivatives);
        let i: &dyn Fn() -> Result<(), DerivError<u32>> = &|| s.match_bag(&bag, open, RbeAlgorithm::Interval);
        let q: &dyn Fn() -> Result<(), DerivError<u32>> = &|| p.match_bag_deriv(&bag, open);
        out.push(json!({"deriv": verdict(d), "interval": verdict(i), "plain": verdict(q)}));
    }
    json!(out)
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Default)]
struct Accept {
    comp: u32,
    values: Vec<u32>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Default)]
struct N(u32);
impl Display for N {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "n{}", self.0)
    }
}
impl rbe::Key for N {}
impl rbe::Value for N {}
impl rbe::Ref for N {}
impl rbe::Context for N {}

impl MatchKind<N, N, N, N> for Accept {
    fn eval(&self, v: &N, _ctx: &N) -> Result<Pending<N, N, N>, RbeError<N, N, N, N, Self>> {
        // values are encoded as 100*position + class; the class is what a condition looks at
        if self.values.contains(&(v.0 % 100)) {
            Ok(Pending::from_pair(*v, N(self.comp)))
        } else {
            Err(RbeError::MsgError { msg: format!("{v} rejected") })
        }
    }
}

/// {"comps":[{"key":k,"accept":[class...]}],"expr":E over component numbers,"pairs":[{"key":k,"val":class}]}
pub fn table(c: &J) -> J {
    let mut t: RbeTable<N, N, N, N, Accept> = RbeTable::new();
    let mut ids: Vec<Component> = Vec::new();
    for (i, comp) in c["comps"].as_array().unwrap().iter().enumerate() {
        let values = comp["accept"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let cond = MatchCond::single(
            SingleCond::new().with_name(&format!("c{i}")).with_kind(Accept { comp: i as u32, values }),
        );
        ids.push(t.add_component(N(comp["key"].as_u64().unwrap() as u32), &cond));
    }
    t.with_rbe(expr(&c["expr"], &|n| ids[n - 1]));
    let mut out = Vec::new();
    for pairs in c["cases"].as_array().unwrap() {
        let values: Vec<(N, N, N)> = pairs
            .as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(i, p)| {
                (N(p["key"].as_u64().unwrap() as u32), N(100 * (i as u32 + 1) + p["val"].as_u64().unwrap() as u32), N(0))
            })
            .collect();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let feasible = t.feasible_neighs(&values);
            match t.matches(values) {
                Err(e) => json!({"exists": false, "feasible": feasible, "assignments": [], "error": e.to_string()}),
                Ok(iter) => {
                    let mut asg: Vec<J> = Vec::new();
                    let mut exists = false;
                    for r in iter {
                        if let Ok(pending) = r {
                            exists = true;
                            let mut a: Vec<(u32, u32)> =
                                pending.iter_vr().map(|(v, r, _)| (v.0 / 100, r.0 + 1)).collect();
                            a.sort();
                            asg.push(json!(a));
                        }
                    }
                    json!({"exists": exists, "feasible": feasible, "assignments": asg})
                },
            }
        }));
        out.push(r.unwrap_or_else(|e| json!({"panic": crate::panic_msg(&e)})));
    }
    json!(out)
}
