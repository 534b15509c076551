//! Runs scripts of session operations on the real `Rudof` facade. One JSON command per input
//! line, one JSON observation per output line. It never judges: the specification does.
mod pg;

use rudof_lib::formats::*;
use rudof_lib::{Rudof, RudofConfig, TomlConfig};
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::str::FromStr;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let cmd: Value = serde_json::from_str(&line).expect("bad json command");
        let id = cmd["id"].clone();
        emit(&json!({"start": id}));
        // a deep stack: recursion depth is not what is being judged
        let out = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || script(&cmd))
            .unwrap()
            .join()
            .unwrap_or_else(|_| json!("harness panic"));
        emit(&json!({"id": id, "out": out}));
    }
}

fn emit(v: &Value) {
    let stdout = std::io::stdout();
    let mut o = stdout.lock();
    writeln!(o, "{v}").unwrap();
    o.flush().unwrap();
}

fn script(cmd: &Value) -> Value {
    let mut config = RudofConfig::default();
    if let Some(t) = cmd["config"].as_str() {
        config = RudofConfig::from_toml_str(t).unwrap_or_else(|e| panic!("harness config: {e}"));
    }
    let mut rudof = Rudof::new(config);
    let mut out = Vec::new();
    for step in cmd["steps"].as_array().unwrap() {
        match catch_unwind(AssertUnwindSafe(|| run_step(&mut rudof, step))) {
            Ok(Ok(v)) => out.push(json!({"ok": v})),
            Ok(Err(e)) => out.push(json!({"err": e})),
            Err(e) => {
                let m = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                out.push(json!({"panic": m}));
                break;
            },
        }
    }
    json!(out)
}

type R = Result<Value, String>;

fn s<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v[k].as_str()
}
fn fmt<T: FromStr>(v: &Value, k: &str) -> Option<T> {
    v[k].as_str().map(|x| T::from_str(x).unwrap_or_else(|_| panic!("harness: bad {k} {x}")))
}
fn spec(v: &Value, k: &str) -> InputSpec {
    if let Some(p) = v[k]["path"].as_str() {
        InputSpec::path(p)
    } else {
        InputSpec::str(v[k].as_str().unwrap_or_else(|| panic!("harness: missing {k}")))
    }
}
fn err<E: std::fmt::Display>(e: E) -> String {
    e.to_string().chars().take(400).collect()
}
fn done<E: std::fmt::Display>(r: Result<(), E>) -> R {
    r.map(|_| Value::Null).map_err(err)
}
fn text(buf: Vec<u8>) -> Value {
    json!(String::from_utf8_lossy(&buf))
}
fn pm(p: &prefixmap::PrefixMap) -> Value {
    json!(p.iter().map(|(a, i)| json!([a, i.as_str()])).collect::<Vec<_>>())
}

fn run_step(r: &mut Rudof, v: &Value) -> R {
    match s(v, "op").unwrap() {
        // ---------------------------------------------------------------- data
        "load_data" => {
            let data: Vec<InputSpec> = if v["data"].is_array() {
                v["data"].as_array().unwrap().iter().map(|x| InputSpec::str(x.as_str().unwrap())).collect()
            } else {
                vec![spec(v, "data")]
            };
            let f: Option<DataFormat> = fmt(v, "format");
            let m: Option<DataReaderMode> = fmt(v, "mode");
            let mut b = r.load_data().with_data(&data);
            if let Some(f) = &f {
                b = b.with_data_format(f);
            }
            if let Some(m) = &m {
                b = b.with_reader_mode(m);
            }
            if let Some(x) = s(v, "base") {
                b = b.with_base(x);
            }
            if let Some(x) = v["merge"].as_bool() {
                b = b.with_merge(x);
            }
            let pre: Option<Vec<InputSpec>> =
                v["prefixes"].as_array().map(|l| l.iter().map(|x| InputSpec::str(x.as_str().unwrap())).collect());
            if let Some(p) = &pre {
                b = b.with_prefixes(p);
            }
            done(b.execute())
        },
        "reset_data" => {
            r.reset_data().execute();
            Ok(Value::Null)
        },
        "has_data" => Ok(json!(r.has_data())),
        "serialize_data" => {
            let f: Option<ResultDataFormat> = fmt(v, "format");
            let mut buf = Vec::new();
            let mut b = r.serialize_data(&mut buf);
            if let Some(f) = &f {
                b = b.with_result_data_format(f);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        // the triples of the data, an error when there are none to list
        "list_data" => {
            let mut buf = Vec::new();
            let f = ResultDataFormat::from_str("ntriples").unwrap();
            r.serialize_data(&mut buf).with_result_data_format(&f).execute().map_err(err)?;
            let t = String::from_utf8_lossy(&buf).into_owned();
            if t.trim_start().starts_with("Node") { Err("not RDF data".to_string()) } else { Ok(json!(t)) }
        },
        // the data written in a format and read back in that format
        "reload" => {
            let f: ResultDataFormat = fmt(v, "format").unwrap();
            let i: DataFormat = fmt(v, "format").unwrap();
            let mut buf = Vec::new();
            r.serialize_data(&mut buf).with_result_data_format(&f).execute().map_err(|x| format!("serialize: {x}"))?;
            let t = String::from_utf8_lossy(&buf).into_owned();
            if v["reset"].as_bool() == Some(true) {
                r.reset_data().execute();
            }
            let data = vec![InputSpec::str(&t)];
            r.load_data().with_data(&data).with_data_format(&i).with_merge(false).execute().map_err(|x| format!("{} in {t}", err(x)))?;
            Ok(Value::Null)
        },
        "node_info" => {
            let m: Option<NodeInspectionMode> = fmt(v, "show");
            let mut buf = Vec::new();
            let node = s(v, "node").unwrap().to_string();
            let mut b = r.show_node_info(&node, &mut buf).with_show_colors(false).with_show_hyperlinks(false);
            if let Some(m) = &m {
                b = b.with_show_node_mode(m);
            }
            if let Some(d) = v["depth"].as_u64() {
                b = b.with_depth(d as usize);
            }
            if let Some(m) = iri_mode(v) {
                b = b.with_iri_mode(m);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        // ---------------------------------------------------------------- shex
        "load_shex" => {
            let f: Option<ShExFormat> = fmt(v, "format");
            let sp = spec(v, "schema");
            let mut b = r.load_shex_schema(&sp);
            if let Some(f) = &f {
                b = b.with_shex_schema_format(f);
            }
            if let Some(x) = s(v, "base") {
                b = b.with_base(x);
            }
            done(b.execute())
        },
        "check_shex" => {
            let f: Option<ShExFormat> = fmt(v, "format");
            let sp = spec(v, "schema");
            let mut buf = Vec::new();
            let mut b = r.check_shex_schema(&sp, &mut buf);
            if let Some(f) = &f {
                b = b.with_shex_schema_format(f);
            }
            b.execute().map(|x| json!(x)).map_err(err)
        },
        "serialize_shex" => {
            let f: Option<ShExFormat> = fmt(v, "format");
            let mut buf = Vec::new();
            let mut b = r.serialize_shex_schema(&mut buf).with_show_schema(true);
            if let Some(f) = &f {
                b = b.with_result_shex_format(f);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        "compile_shex" => {
            // compiles to memory; "save" names a file of the scratch directory
            let mut buf = Vec::new();
            r.compile_shex_schema_to_file(&mut buf).execute().map_err(err)?;
            if let Some(p) = s(v, "save") {
                std::fs::write(p, &buf).map_err(err)?;
            }
            Ok(json!(buf.len()))
        },
        "load_shex_compiled" => {
            let sp = spec(v, "schema");
            done(r.load_shex_schema_precompiled(&sp).execute())
        },
        "shex_roundtrip" => {
            // writes the schema and reads it again
            let f = s(v, "format").unwrap();
            let mut buf = Vec::new();
            if f == "compiled" {
                r.compile_shex_schema_to_file(&mut buf).execute().map_err(err)?;
                let p = format!("compiled_{}.bin", std::process::id());
                std::fs::write(&p, &buf).map_err(err)?;
                let x = r.load_shex_schema_precompiled(&InputSpec::path(&p)).execute();
                std::fs::remove_file(&p).map_err(err)?;
                x.map_err(err)?;
                Ok(Value::Null)
            } else {
                let f = ShExFormat::from_str(f).map_err(err)?;
                let b = r.serialize_shex_schema(&mut buf).with_show_schema(true);
                b.with_result_shex_format(&f).execute().map_err(err)?;
                let t = String::from_utf8(buf).map_err(err)?;
                r.load_shex_schema(&InputSpec::str(&t)).with_shex_schema_format(&f).execute().map_err(|e| format!("{e} IN {t}"))?;
                Ok(json!(t))
            }
        },
        "reset_shex_schema" => {
            r.reset_shex_schema().execute();
            Ok(Value::Null)
        },
        "reset_shex" => {
            r.reset_shex().execute();
            Ok(Value::Null)
        },
        "load_shapemap" => {
            let f: Option<ShapeMapFormat> = fmt(v, "format");
            let sp = spec(v, "shapemap");
            let mut b = r.load_shapemap(&sp);
            if let Some(f) = &f {
                b = b.with_shapemap_format(f);
            }
            if let Some(x) = s(v, "base_nodes") {
                b = b.with_base_nodes(x);
            }
            if let Some(x) = s(v, "base_shapes") {
                b = b.with_base_shapes(x);
            }
            done(b.execute())
        },
        "add_node_shape" => {
            let node = s(v, "node").unwrap().to_string();
            let shape = s(v, "shape").map(|x| x.to_string());
            let mut b = r.add_node_shape_to_shapemap(&node);
            if let Some(x) = &shape {
                b = b.with_shape(x);
            }
            if let Some(m) = iri_mode(v) {
                b = b.with_iri_mode(m);
            }
            done(b.execute())
        },
        "serialize_shapemap" => {
            let f: Option<ShapeMapFormat> = fmt(v, "format");
            let mut buf = Vec::new();
            let mut b = r.serialize_shapemap(&mut buf).with_show_colors(false);
            if let Some(f) = &f {
                b = b.with_result_shapemap_format(f);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        "shapemap_roundtrip" => {
            // writes the shape map and reads it again
            let mut buf = Vec::new();
            r.serialize_shapemap(&mut buf).with_show_colors(false).execute().map_err(err)?;
            let t = String::from_utf8(buf).map_err(err)?;
            r.load_shapemap(&InputSpec::str(&t)).execute().map_err(|e| format!("{e} IN {t}"))?;
            Ok(json!(t))
        },
        "reset_shapemap" => {
            r.reset_shapemap().execute();
            Ok(Value::Null)
        },
        "validate_shex" => {
            r.validate_shex().execute().map_err(err)?;
            Ok(shex_results(r))
        },
        "shex_results" => Ok(shex_results(r)),
        "shex_rows" => {
            r.validate_shex().execute().map_err(err)?;
            let rs = r.shex_validation_results().ok_or("no results")?;
            let mut out = Vec::new();
            for (n, l, st) in rs.iter() {
                let t: oxrdf::Term = n.as_object().clone().into();
                out.push((t.to_string(), l.to_string(), st.code()));
            }
            out.sort();
            Ok(json!(out))
        },
        "serialize_shex_results" => {
            let f: Option<ResultShExValidationFormat> = fmt(v, "format");
            let o: Option<ShExValidationSortByMode> = fmt(v, "sort");
            let mut buf = Vec::new();
            let mut b = r.serialize_shex_validation_results(&mut buf);
            if let Some(f) = &f {
                b = b.with_result_shex_validation_format(f);
            }
            if let Some(o) = &o {
                b = b.with_shex_validation_sort_order_mode(o);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        // ---------------------------------------------------------------- shacl
        "load_shacl" => {
            let f: Option<ShaclFormat> = fmt(v, "format");
            let m: Option<DataReaderMode> = fmt(v, "mode");
            let sp = v.get("shapes").map(|_| spec(v, "shapes"));
            let mut b = r.load_shacl_shapes();
            if let Some(sp) = &sp {
                b = b.with_shacl_schema(sp);
            }
            if let Some(f) = &f {
                b = b.with_shacl_schema_format(f);
            }
            if let Some(m) = &m {
                b = b.with_reader_mode(m);
            }
            if let Some(x) = s(v, "base") {
                b = b.with_base(x);
            }
            done(b.execute())
        },
        "serialize_shacl" => {
            let f: Option<ShaclFormat> = fmt(v, "format");
            let mut buf = Vec::new();
            let mut b = r.serialize_shacl_shapes(&mut buf);
            if let Some(f) = &f {
                b = b.with_shacl_result_format(f);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        "shacl_roundtrip" => {
            // writes the shapes and reads them again
            let f = ShaclFormat::from_str(s(v, "format").unwrap()).map_err(err)?;
            let mut buf = Vec::new();
            r.serialize_shacl_shapes(&mut buf).with_shacl_result_format(&f).execute().map_err(err)?;
            let t = String::from_utf8(buf).map_err(err)?;
            let sp = InputSpec::str(&t);
            r.load_shacl_shapes().with_shacl_schema(&sp).with_shacl_schema_format(&f).execute().map_err(|e| format!("{e} IN {t}"))?;
            Ok(json!(t))
        }
        "reset_shacl_shapes" => {
            r.reset_shacl_shapes().execute();
            Ok(Value::Null)
        },
        "reset_shacl" => {
            r.reset_shacl().execute();
            Ok(Value::Null)
        },
        "validate_shacl" => {
            let m: Option<ShaclValidationMode> = fmt(v, "mode");
            let mut b = r.validate_shacl();
            if let Some(m) = &m {
                b = b.with_shacl_validation_mode(m);
            }
            b.execute().map_err(err)?;
            shacl_report(r, v)
        },
        "shacl_report" => shacl_report(r, v),
        "shex_report" => {
            let f = ResultShExValidationFormat::from_str(s(v, "format").unwrap()).map_err(err)?;
            let sort: Option<ShExValidationSortByMode> = fmt(v, "sort");
            let mut buf = Vec::new();
            let mut b = r.serialize_shex_validation_results(&mut buf).with_result_shex_validation_format(&f);
            if let Some(m) = &sort {
                b = b.with_shex_validation_sort_order_mode(m);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        // ---------------------------------------------------------------- queries
        "load_query" => {
            let t: Option<QueryType> = fmt(v, "type");
            let sp = spec(v, "query");
            let mut b = r.load_sparql_query(&sp);
            if let Some(t) = &t {
                b = b.with_query_type(t);
            }
            done(b.execute())
        },
        "run_query" => {
            let f: Option<ResultQueryFormat> = fmt(v, "format");
            let mut b = r.run_query();
            if let Some(f) = &f {
                b = b.with_result_query_format(f);
            }
            b.execute().map_err(err)?;
            Ok(query_results(r))
        },
        "query_results" => Ok(query_results(r)),
        "serialize_query_results" => {
            let f: Option<ResultQueryFormat> = fmt(v, "format");
            let mut buf = Vec::new();
            let mut b = r.serialize_query_results(&mut buf);
            if let Some(f) = &f {
                b = b.with_result_query_format(f);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        "serialize_query" => {
            let mut buf = Vec::new();
            r.serialize_sparql_query(&mut buf).execute().map_err(err)?;
            Ok(text(buf))
        },
        "reset_query" => {
            r.reset_sparql_query().execute();
            Ok(Value::Null)
        },
        "reset_query_results" => {
            r.reset_query_results().execute();
            Ok(Value::Null)
        },
        // ---------------------------------------------------------------- property graphs
        "pg_terms" => pg::validate(v),
        "pg_report_csv" => {
            let mut buf = Vec::new();
            let f = ResultPgSchemaValidationFormat::from_str("csv").unwrap();
            r.serialize_pgschema_validation_results(&mut buf)
                .with_result_pg_schema_validation_format(&f)
                .with_show_colors(false)
                .execute()
                .map_err(err)?;
            Ok(text(buf))
        },
        "load_pgschema" => {
            let sp = spec(v, "schema");
            done(r.load_pg_schema(&sp).execute())
        },
        "load_typemap" => {
            let sp = spec(v, "typemap");
            done(r.load_typemap(&sp).execute())
        },
        "validate_pgschema" => {
            r.validate_pgschema().execute().map_err(err)?;
            pg_report(r)
        },
        "pg_report" => pg_report(r),
        "reset_pgschema" => {
            r.reset_pg_schema().execute();
            Ok(Value::Null)
        },
        "reset_typemap" => {
            r.reset_typemap().execute();
            Ok(Value::Null)
        },
        "reset_pg_validation" => {
            r.reset_pg_schema_validation().execute();
            Ok(Value::Null)
        },
        "serialize_pgschema" => {
            let mut buf = Vec::new();
            r.serialize_pg_schema(&mut buf).execute().map_err(err)?;
            Ok(text(buf))
        },
        // ---------------------------------------------------------------- dctap, conversion, comparison
        "load_dctap" => {
            let f: Option<DCTapFormat> = fmt(v, "format");
            let sp = spec(v, "dctap");
            let mut b = r.load_dctap(&sp);
            if let Some(f) = &f {
                b = b.with_dctap_format(f);
            }
            done(b.execute())
        },
        "serialize_dctap" => {
            let mut buf = Vec::new();
            r.serialize_dctap(&mut buf).execute().map_err(err)?;
            Ok(text(buf))
        },
        "reset_dctap" => {
            r.reset_dctap().execute();
            Ok(Value::Null)
        },
        "convert" => {
            let sp = spec(v, "schema");
            let im: ConversionMode = fmt(v, "in_mode").unwrap();
            let om: ResultConversionMode = fmt(v, "out_mode").unwrap();
            let inf: ConversionFormat = fmt(v, "in_format").unwrap();
            let of: ResultConversionFormat = fmt(v, "out_format").unwrap();
            let mut buf = Vec::new();
            r.show_schema_conversion(&sp, &im, &om, &inf, &of, &mut buf).execute().map_err(err)?;
            Ok(text(buf))
        },
        "compare" => {
            let (s1, s2) = (spec(v, "schema1"), spec(v, "schema2"));
            let f1: ComparisonFormat = fmt(v, "format1").unwrap();
            let f2: ComparisonFormat = fmt(v, "format2").unwrap();
            let m1: ComparisonMode = fmt(v, "mode1").unwrap();
            let m2: ComparisonMode = fmt(v, "mode2").unwrap();
            let rf = ResultComparisonFormat::from_str(s(v, "result_format").unwrap_or("json")).unwrap();
            let (l1, l2) = (s(v, "shape1").map(String::from), s(v, "shape2").map(String::from));
            let mut buf = Vec::new();
            let mut b = r.show_schema_comparison(&s1, &s2, &f1, &f2, &m1, &m2, &mut buf).with_result_format(&rf);
            if let Some(l) = &l1 {
                b = b.with_shape1(l);
            }
            if let Some(l) = &l2 {
                b = b.with_shape2(l);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        "generate" => generate(r, v),
        // ---------------------------------------------------------------- prefixes and session
        "prefixes" => Ok(pm(&r.prefixes().execute())),
        "add_prefix" => done(r.add_prefix(s(v, "alias").unwrap(), s(v, "iri").unwrap()).execute()),
        "remove_prefix" => done(r.remove_prefix(s(v, "alias").unwrap()).execute()),
        "rename_prefix" => done(r.rename_prefix(s(v, "old").unwrap(), s(v, "new").unwrap()).execute()),
        "copy_prefix" => done(r.copy_prefix(s(v, "old").unwrap(), s(v, "new").unwrap()).execute()),
        "reset_all" => {
            r.reset_all().execute();
            Ok(Value::Null)
        },
        "materialize" => {
            let mut buf = Vec::new();
            let f = ResultDataFormat::from_str("ntriples").unwrap();
            let mut b = r.materialize(&mut buf).with_result_format(&f);
            if let Some(x) = s(v, "node") {
                b = b.with_initial_node_iri(x);
            }
            b.execute().map_err(err)?;
            Ok(text(buf))
        },
        // ---------------------------------------------------------------- service descriptions, map states
        "load_service" => {
            let sp = spec(v, "data");
            done(r.load_service_description(&sp).execute())
        },
        "reset_service" => {
            r.reset_service_description().execute();
            Ok(Value::Null)
        },
        "load_map_state" => {
            let p = PathBuf::from(format!("map_state_{}.json", std::process::id()));
            std::fs::write(&p, s(v, "state").unwrap()).unwrap();
            let res = done(r.load_map_state(&p).execute());
            let _ = std::fs::remove_file(&p);
            res
        },
        "save_map_state" => {
            let mut buf = Vec::new();
            r.serialize_map_state(&mut buf).execute().map_err(err)?;
            std::fs::write(format!("saved_state_{}.json", std::process::id()), &buf).unwrap();
            Ok(text(buf))
        },
        "load_saved_map_state" => {
            let p = PathBuf::from(format!("saved_state_{}.json", std::process::id()));
            done(r.load_map_state(&p).execute())
        },
        "map_state" => {
            let mut buf = Vec::new();
            r.serialize_map_state(&mut buf).execute().map_err(err)?;
            Ok(text(buf))
        },
        "load_rdf_config" => {
            let sp = spec(v, "config");
            done(r.load_rdf_config(&sp).execute())
        },
        "reset_rdf_config" => {
            r.reset_rdf_config().execute();
            Ok(Value::Null)
        },
        "snapshot" => Ok(snapshot(r, v)),
        other => panic!("harness: unknown op {other}"),
    }
}

fn iri_mode(v: &Value) -> Option<IriNormalizationMode> {
    s(v, "iri_mode").map(|m| match m {
        "lax" => IriNormalizationMode::Lax,
        _ => IriNormalizationMode::Strict,
    })
}

fn shex_results(r: &Rudof) -> Value {
    match r.shex_validation_results() {
        None => Value::Null,
        Some(rs) => {
            let mut out: Vec<(String, String, String)> =
                rs.iter().map(|(n, l, st)| (n.to_string(), l.to_string(), st.code())).collect();
            out.sort();
            json!(out)
        },
    }
}

fn shacl_report(r: &mut Rudof, v: &Value) -> R {
    let mut buf = Vec::new();
    let name = s(v, "report").unwrap_or("ntriples");
    let f = ResultShaclValidationFormat::from_str(name).map_err(err)?;
    let sort: Option<ShaclValidationSortByMode> = fmt(v, "sort");
    let mut b = r.serialize_shacl_validation_results(&mut buf).with_result_shacl_validation_format(&f);
    if let Some(m) = &sort {
        b = b.with_shacl_validation_sort_order_mode(m);
    }
    b.execute().map_err(err)?;
    if v["nt"].as_bool() == Some(true) {
        // the report as N-Triples, whatever the format it was written in
        use rudof_rdf::rdf_core::{BuildRDF, RDFFormat};
        use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
        let t = String::from_utf8(buf).map_err(err)?;
        let rf = RDFFormat::from_str(if name == "rdfxml" { "rdf/xml" } else { name }).map_err(err)?;
        let g = OxigraphInMemory::from_str(&t, &rf, None, &ReaderMode::Strict).map_err(|x| format!("{x} IN {t}"))?;
        let mut g = g;
        if v["parse"].as_bool() == Some(true) {
            // what the library reads from the document, as the graph that the library writes for it
            use rudof_rdf::rdf_core::vocabs::ShaclVocab;
            use rudof_rdf::rdf_core::{NeighsRDF, term::Triple};
            let report = g
                .triples_with_predicate(&oxrdf::NamedNode::from(ShaclVocab::sh_conforms()))
                .map_err(err)?
                .map(Triple::into_subject)
                .next()
                .ok_or("no report")?;
            let parsed = shacl::validator::report::ValidationReport::parse(&mut g, report.into()).map_err(err)?;
            g = OxigraphInMemory::new();
            parsed.to_rdf(&mut g).map_err(err)?;
        }
        let mut out = Vec::new();
        g.serialize(&RDFFormat::NTriples, &mut out).map_err(err)?;
        return Ok(text(out));
    }
    Ok(text(buf))
}

fn pg_report(r: &mut Rudof) -> R {
    let mut buf = Vec::new();
    let f = ResultPgSchemaValidationFormat::from_str("json").unwrap();
    r.serialize_pgschema_validation_results(&mut buf)
        .with_result_pg_schema_validation_format(&f)
        .with_show_colors(false)
        .execute()
        .map_err(err)?;
    Ok(text(buf))
}

fn query_results(r: &Rudof) -> Value {
    let mut buf = Vec::new();
    let f = ResultQueryFormat::from_str("json").unwrap();
    if r.query_results().is_none() {
        return Value::Null;
    }
    match r.serialize_query_results(&mut buf).with_result_query_format(&f).execute() {
        Err(e) => json!({"error": e.to_string()}),
        Ok(()) => {
            let t = text(buf);
            match serde_json::from_str::<Value>(t.as_str().unwrap_or("")) {
                Ok(Value::Bool(b)) => json!({"ask": b}),
                Ok(v) => json!({"select": v}),
                Err(_) => json!({"construct": t}),
            }
        }
    }
}

/// Everything the read-only operations show, with the order of what they show forgotten.
fn snapshot(r: &mut Rudof, v: &Value) -> Value {
    let mut steps = vec![
        ("prefixes", json!({"op": "prefixes"})),
        ("has_data", json!({"op": "has_data"})),
        ("data_nt", json!({"op": "serialize_data", "format": "ntriples"})),
        ("data_ttl", json!({"op": "serialize_data", "format": "turtle"})),
        ("data", json!({"op": "serialize_data"})),
        ("shex_internal", json!({"op": "serialize_shex", "format": "internal"})),
        ("shex_shexc", json!({"op": "serialize_shex", "format": "shexc"})),
        ("shex_shexj", json!({"op": "serialize_shex", "format": "shexj"})),
        ("shapemap", json!({"op": "serialize_shapemap", "format": "compact"})),
        ("shapemap_json", json!({"op": "serialize_shapemap", "format": "json"})),
        ("shex_results", json!({"op": "shex_results"})),
        ("shex_results_json", json!({"op": "serialize_shex_results", "format": "json"})),
        ("shex_results_csv", json!({"op": "serialize_shex_results", "format": "csv"})),
        ("shacl", json!({"op": "serialize_shacl", "format": "internal"})),
        ("shacl_ttl", json!({"op": "serialize_shacl", "format": "ntriples"})),
        ("shacl_report", json!({"op": "shacl_report"})),
        ("query", json!({"op": "serialize_query"})),
        ("query_results", json!({"op": "query_results"})),
        ("pgschema", json!({"op": "serialize_pgschema"})),
        ("pg_report", json!({"op": "pg_report"})),
        ("dctap", json!({"op": "serialize_dctap"})),
        ("map_state", json!({"op": "map_state"})),
    ];
    for n in v["nodes"].as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
        steps.push(("node_info", json!({"op": "node_info", "node": n})));
    }
    let mut out = serde_json::Map::new();
    let mut add = |k: String, res: Result<R, ()>| {
        let t = match res {
            Ok(Ok(Value::String(t))) => t,
            Ok(Ok(x)) => x.to_string().replace("\\n", " ").replace("\\t", " ").replace("construct\":\"", "construct "),
            Ok(Err(e)) => format!("error {e}"),
            Err(()) => "panic".to_string(),
        };
        let blank = regex::Regex::new(r"_:[A-Za-z0-9]+").unwrap().replace_all(&t, "_:b").into_owned();
        let mut toks: Vec<&str> = blank.split(|c: char| c.is_whitespace() || ",;.[](){}".contains(c)).filter(|x| !x.is_empty()).collect();
        toks.sort();
        out.insert(k, json!(toks.join(" ")));
    };
    for (i, (k, st)) in steps.iter().enumerate() {
        let res = catch_unwind(AssertUnwindSafe(|| run_step(r, st))).map_err(|_| ());
        add(if *k == "node_info" { format!("node_info_{i}") } else { k.to_string() }, res);
    }
    let mut buf = Vec::new();
    let res = r.serialize_service_description(&mut buf).execute().map_err(err).map(|_| ());
    add("service".into(), Ok(res.map(|_| text(buf))));
    let mut buf = Vec::new();
    let res = r.serialize_rdf_config(&mut buf).execute().map_err(err).map(|_| ());
    add("rdf_config".into(), Ok(res.map(|_| text(buf))));
    Value::Object(out)
}

/// One run of the data generator: schema, configuration and output live in a scratch folder; the
/// triples of all the files written are returned as N-Triples.
fn generate(r: &mut Rudof, v: &Value) -> Result<Value, String> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let dir = PathBuf::from(format!("gen_{}_{}", std::process::id(), n));
    std::fs::create_dir_all(&dir).map_err(err)?;
    let res = catch_unwind(AssertUnwindSafe(|| generate_in(r, v, &dir)));
    let _ = std::fs::remove_dir_all(&dir);
    match res {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn generate_in(r: &mut Rudof, v: &Value, dir: &std::path::Path) -> Result<Value, String> {
    let schema = dir.join(s(v, "name").unwrap());
    std::fs::write(&schema, s(v, "schema").unwrap()).map_err(err)?;
    let cfg = s(v, "config").map(|c| {
        let p = dir.join(format!("config.{}", s(v, "config_format").unwrap_or("toml")));
        std::fs::write(&p, c).unwrap();
        p
    });
    let turtle = s(v, "format") == Some("turtle");
    let out = dir.join("out").join(if turtle { "g.ttl" } else { "g.nt" });
    let rt = match v["threads"].as_u64().unwrap_or(0) {
        0 => tokio::runtime::Builder::new_current_thread().enable_all().build(),
        k => tokio::runtime::Builder::new_multi_thread().worker_threads(k as usize).enable_all().build(),
    }
    .unwrap();
    if v["legacy"].as_bool() == Some(true) {
        // the generator's own pipeline for ShEx files
        let mut c = match &cfg {
            Some(p) if p.extension().unwrap() == "toml" => rudof_generate::GeneratorConfig::from_toml_file(p).map_err(err)?,
            Some(p) => rudof_generate::GeneratorConfig::from_json_file(p).map_err(err)?,
            None => rudof_generate::GeneratorConfig::default(),
        };
        c.merge_cli_overrides(v["count"].as_u64().map(|x| x as usize), Some(out.clone()), v["seed"].as_u64());
        if !turtle {
            c.output.format = rudof_generate::config::OutputFormat::NTriples;
        }
        let mut g = rudof_generate::DataGenerator::new(c).map_err(err)?;
        rt.block_on(g.run(&schema)).map_err(err)?;
    } else {
        let sp = InputSpec::Path(schema);
        let sf: GenerationSchemaFormat = fmt(v, "schema_format").unwrap();
        let rf: Option<DataFormat> = fmt(v, "format");
        let mut b = r.generate_data(&sp, &sf, v["count"].as_u64().map(|x| x as usize)).with_output(&out);
        if let Some(c) = &cfg {
            b = b.with_config_file(c);
        }
        if let Some(f) = &rf {
            b = b.with_result_generation_format(f);
        }
        if let Some(x) = v["seed"].as_u64() {
            b = b.with_seed(x);
        }
        if let Some(x) = v["parallel"].as_u64() {
            b = b.with_parallel(x as usize);
        }
        rt.block_on(b.execute()).map_err(err)?;
    }
    // every data file written, wherever the triples were spread
    let mut texts = Vec::new();
    for e in std::fs::read_dir(dir.join("out")).map_err(err)? {
        let p = e.map_err(err)?.path();
        if matches!(p.extension().and_then(|x| x.to_str()), Some("nt" | "ttl")) {
            texts.push(std::fs::read_to_string(&p).map_err(err)?);
        }
    }
    if !turtle {
        return Ok(json!(texts.concat()));
    }
    let mut all = String::new();
    for t in texts {
        let mut q = Rudof::new(RudofConfig::default());
        let sp = [InputSpec::Str(t)];
        q.load_data().with_data(&sp).execute().map_err(err)?;
        let mut buf = Vec::new();
        let f = ResultDataFormat::from_str("ntriples").unwrap();
        q.serialize_data(&mut buf).with_result_data_format(&f).execute().map_err(err)?;
        all.push_str(&String::from_utf8_lossy(&buf));
    }
    Ok(json!(all))
}
