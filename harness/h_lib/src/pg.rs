//! Property graph types built directly as terms and validated through a type map.
use pgschema::{
    boolean_expr::BooleanExpr,
    card::{Card, Max},
    edge_label_property_spec::EdgeLabelPropertySpec,
    key::Key,
    label_property_spec::LabelPropertySpec as F,
    pg::PropertyGraph,
    pgs::PropertyGraphSchema,
    property_value_spec::{PropertyValue, PropertyValueSpec, TypeSpec},
    record::Record,
    type_map::{Association, TypeMap},
    value::Value as V,
    value_type::ValueType,
};
use serde_json::{Value, json};

fn st(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}

fn cps(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

fn val(v: &Value) -> V {
    match v["t"].as_str().unwrap() {
        "s" => V::str(&cps(&v["s"])),
        "i" => V::int(v["i"].as_i64().unwrap() as i32),
        "b" => if v["i"] == 1 { V::true_() } else { V::false_() },
        "d" => {
            let i = v["i"].as_i64().unwrap();
            V::date(&format!("{:04}-{:02}-{:02}", i / 10000, i / 100 % 100, i % 100)).unwrap()
        }
        x => panic!("harness: value {x}"),
    }
}

fn cond(c: &Value) -> BooleanExpr {
    let v = || val(&c["v"]);
    match c["k"].as_str().unwrap() {
        "true" => BooleanExpr::True,
        "false" => BooleanExpr::False,
        "eq" => BooleanExpr::Equals(v()),
        "gt" => BooleanExpr::GreaterThan(v()),
        "ge" => BooleanExpr::GreaterThanOrEqual(v()),
        "lt" => BooleanExpr::LessThan(v()),
        "le" => BooleanExpr::LessThanOrEqual(v()),
        "regex" => BooleanExpr::Regex(st(&c["text"])),
        "not" => BooleanExpr::Not(Box::new(cond(&c["a"]))),
        "and" => BooleanExpr::And(Box::new(cond(&c["a"])), Box::new(cond(&c["b"]))),
        "or" => BooleanExpr::Or(Box::new(cond(&c["a"])), Box::new(cond(&c["b"]))),
        x => panic!("harness: condition {x}"),
    }
}

fn card(t: &Value) -> Card {
    let (min, max) = (t["min"].as_u64().unwrap() as usize, t["max"].as_i64().unwrap());
    match (min, max, t["named"].as_bool().unwrap()) {
        (0, 1, true) => Card::ZeroOrOne,
        (1, 1, true) => Card::One,
        (0, -1, true) => Card::ZeroOrMore,
        (1, -1, true) => Card::OneOrMore,
        (_, -1, _) => Card::range(min, Max::Unbounded),
        _ => Card::range(min, Max::Bounded(max as usize)),
    }
}

fn prim(t: &Value) -> TypeSpec {
    match t["t"].as_str().unwrap() {
        "s" => TypeSpec::string(card(t)),
        "i" => TypeSpec::integer(card(t)),
        "d" => TypeSpec::date(card(t)),
        _ => TypeSpec::bool(card(t)),
    }
}

fn ty(t: &Value) -> TypeSpec {
    match t["k"].as_str().unwrap() {
        "any" => TypeSpec::any(),
        "prim" => prim(t),
        "cond" => TypeSpec::cond(ValueType::Any, cond(&t["c"])),
        "inter" if t["b"]["k"] == "cond" && t["checked"] == true => TypeSpec::cond(ty(&t["a"]).to_value_type(), cond(&t["b"]["c"])),
        "inter" => TypeSpec::intersection(ty(&t["a"]), ty(&t["b"])),
        "union" => TypeSpec::union(ty(&t["a"]), ty(&t["b"])),
        x => panic!("harness: type {x}"),
    }
}

fn props(p: &Value) -> PropertyValue {
    let key = || Key::new(p["key"].as_str().unwrap());
    match p["k"].as_str().unwrap() {
        "empty" => PropertyValue::empty(),
        "prop" => PropertyValue::property(key(), ty(&p["ty"])),
        "optprop" => PropertyValue::optional_property(key(), ty(&p["ty"])),
        "each" => PropertyValue::each_of(props(&p["a"]), props(&p["b"])),
        "one" => PropertyValue::one_of(props(&p["a"]), props(&p["b"])),
        x => panic!("harness: properties {x}"),
    }
}

fn spec(f: &Value) -> F {
    match f["k"].as_str().unwrap() {
        "empty" => F::new(),
        "label" => F::label(st(&f["l"])),
        "ref" => F::ref_(st(&f["t"])),
        "opt" => F::optional(spec(&f["a"])),
        "open" => F::open(spec(&f["a"])),
        "and" => F::and(spec(&f["a"]), spec(&f["b"])),
        "or" => F::or(spec(&f["a"]), spec(&f["b"])),
        "content" => {
            let p = props(&f["p"]);
            F::content(spec(&f["a"]), if f["open"] == true { PropertyValueSpec::open(p) } else { PropertyValueSpec::closed(p) })
        }
        x => panic!("harness: labels {x}"),
    }
}

fn record(r: &Value) -> Record {
    let mut out = Record::new();
    for (k, vs) in r.as_object().unwrap() {
        out.insert_values(Key::new(k), vs.as_array().unwrap().iter().map(val).collect());
    }
    out
}

fn labels(l: &Value) -> Vec<String> {
    l.as_array().unwrap().iter().map(st).collect()
}

pub fn validate(c: &Value) -> Result<Value, String> {
    let mut schema = PropertyGraphSchema::new();
    for (n, t) in c["nt"].as_object().unwrap() {
        schema.add_node_spec(n, spec(&t["f"])).map_err(|e| e.to_string())?;
    }
    for (n, t) in c["et"].as_object().unwrap() {
        schema
            .add_edge_spec(n, spec(&t["src"]), EdgeLabelPropertySpec::new(spec(&t["f"])), spec(&t["tgt"]))
            .map_err(|e| e.to_string())?;
    }
    let mut g = PropertyGraph::new();
    for (n, x) in c["nodes"].as_object().unwrap() {
        g.add_node(n.clone(), labels(&x["l"]), record(&x["r"]));
    }
    for (n, x) in c["edges"].as_object().unwrap() {
        g.add_edge(Some(n.clone()), st(&x["src"]), labels(&x["l"]), record(&x["r"]), st(&x["tgt"])).map_err(|e| e.to_string())?;
    }
    let mut m = TypeMap::new();
    for a in c["ask"].as_array().unwrap() {
        let x = Association::new(st(&a["e"]), st(&a["t"]));
        m.add_association(if a["should"] == true { x } else { x.with_no_conform() });
    }
    let res = m.validate(&schema, &g).map_err(|e| e.to_string())?;
    let failed: Vec<String> = m
        .compare_with_result(&res)
        .map_err(|e| e.to_string())?
        .iter()
        .map(|f| f.to_string().split(" should ").next().unwrap().to_string())
        .collect();
    let rows: Vec<Value> = res
        .associations
        .iter()
        .map(|r| json!({"e": r.node_id, "t": r.type_name, "got": r.conforms, "alsogot": r.details.is_right()}))
        .collect();
    Ok(json!({"rows": rows, "valid": res.is_valid, "failed": failed}))
}
