//! Runs one JSON command per input line against the real rudof crates and writes one JSON
//! observation per output line. It never judges: the specification does.
mod literal;
mod prefix;
mod rbe_ops;
mod store;

use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let cmd: Value = serde_json::from_str(&line).expect("bad json command");
        let id = cmd["id"].clone();
        {
            let mut o = stdout.lock();
            writeln!(o, "{}", json!({"start": id})).unwrap();
            o.flush().unwrap();
        }
        let res = catch_unwind(AssertUnwindSafe(|| match cmd["op"].as_str().unwrap_or("") {
            "rbe" => rbe_ops::rbe(&cmd),
            "table" => rbe_ops::table(&cmd),
            "store" => store::run(&cmd),
            "prefix" => prefix::run(&cmd),
            "literal_cmp" => literal::cmp(&cmd),
            other => json!({"unknown_op": other}),
        }));
        let out = match res {
            Ok(v) => json!({"id": id, "out": v}),
            Err(e) => json!({"id": id, "panic": panic_msg(&e)}),
        };
        let mut o = stdout.lock();
        writeln!(o, "{out}").unwrap();
        o.flush().unwrap();
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".to_string())
}
