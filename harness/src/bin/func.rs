//! func REQUESTS OUT [trace] : one request per line in, one result per line out.
use harness::{func, util::*};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    if a.iter().any(|x| x == "trace") {
        trace_on();
    }
    Watchdog::start(Duration::from_secs(20), Duration::from_secs(120));
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).unwrap());
    for line in std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        {
            let (id, path) = (q["id"].clone(), a[2].clone());
            out.flush().unwrap();
            on_hang(Some(Box::new(move |why| Out::append(&path).line(&json!({"id": id, "r": {"k": "hang", "why": why}})))));
        }
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| func::call(&q))) {
            Ok(r) => r,
            Err(_) => json!({"k": "panic", "why": panic_text()}),
        };
        on_hang(None);
        writeln!(out, "{}", json!({"id": q["id"], "r": r})).unwrap();
    }
}
