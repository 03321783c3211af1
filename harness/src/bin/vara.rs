//! vara SCRIPTS OUT [trace] : one script per line in, one trace per line out.
use harness::{util::*, vara};
use serde_json::{json, Value};
use std::io::BufRead;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    if a.iter().any(|x| x == "trace") {
        trace_on();
    }
    Watchdog::start(Duration::from_secs(4), Duration::from_secs(60));
    let mut out = Out::append(&a[2]);
    for line in std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let script: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let log: vara::Log = Arc::new(Mutex::new(vec![]));
        let p0 = panics();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        {
            let (log, id, ops, path) = (log.clone(), script["id"].clone(), script["ops"].clone(), a[2].clone());
            on_hang(Some(Box::new(move |why| {
                let mut ev = log.lock().unwrap().clone();
                let n = ev.len();
                let mut e = ops.as_array().and_then(|o| o.get(n)).cloned().unwrap_or(json!({}));
                e["op"] = json!("hang");
                e["why"] = json!(why);
                ev.push(e);
                Out::append(&path).line(&json!({"id": id, "ev": ev, "panic": panic_text()}));
            })));
        }
        rt.block_on(vara::run(&script, log.clone()));
        on_hang(None);
        rt.shutdown_timeout(Duration::from_millis(200));
        let ev = log.lock().unwrap().clone();
        let ptxt = if panics() > p0 { panic_text() } else { String::new() };
        out.line(&json!({"id": script["id"], "p0": p0, "ev": ev, "panic": ptxt}));
    }
}
