//! Histories through the browser entry points.  Their engine is global, so every history has a process of its own.
#[allow(dead_code)]
#[path = "../../harness/src/memory.rs"]
mod memory;
#[allow(dead_code)]
#[path = "../../harness/src/run.rs"]
mod run;

use glicol::{Engine, EngineError};
use glicol_wasm as web;
use serde_json::{json, Map, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn floats(v: &Value) -> Vec<f32> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_i64().unwrap_or(0) as f32 / run::S).collect())
        .unwrap_or_default()
}

/// what an engine used directly decides about the code
fn own(r: Result<(), EngineError>) -> Value {
    match r {
        Ok(()) => json!({"v": "ok"}),
        Err(EngineError::NonExistReference(s)) => json!({"v": "ref", "vn": s}),
        Err(EngineError::NonExistSample(s)) => json!({"v": "sample", "vn": s}),
        Err(EngineError::ParsingError(e)) => {
            let pos = match e.location {
                pest::error::InputLocation::Pos(p) | pest::error::InputLocation::Span((p, _)) => p,
            };
            let (line, col) = match e.line_col {
                pest::error::LineColLocation::Pos(p) | pest::error::LineColLocation::Span(p, _) => p,
            };
            let (yes, no) = match &e.variant {
                pest::error::ErrorVariant::ParsingError { positives, negatives } => {
                    (format!("{positives:?}"), format!("{negatives:?}"))
                }
                _ => (String::new(), String::new()),
            };
            json!({"v": "parse", "vn": "", "pos": pos, "line": line, "col": col, "yes": yes, "no": no})
        }
    }
}

fn apply(e: &mut Engine<128>, op: &Value) -> Map<String, Value> {
    let mut out = Map::new();
    let num = |k: &str| op[k].as_f64().unwrap_or(0.) as f32;
    let text = || op["text"].as_str().unwrap_or("");
    match op["op"].as_str().unwrap_or("") {
        "update" | "bad" => {
            let status = unsafe { web::update(text().as_bytes()) };
            let end = status.iter().rposition(|b| *b != 0).map_or(2, |p| (p + 1).max(2)).min(status.len());
            let message = status.get(2..end).unwrap_or(&[]);
            out.insert("size".into(), json!(status.len()));
            out.insert("code".into(), json!(status.first()));
            out.insert("gap".into(), json!(status.get(1)));
            out.insert("message".into(), json!(String::from_utf8_lossy(message)));
            out.insert("own".into(), own(e.update_with_code(text())));
        }
        "block" => {
            let size = op["size"].as_u64().unwrap() as usize;
            let block: Vec<i64> = web::process(size).into_iter().map(run::quant).collect();
            out.insert("out".into(), json!(block));
            e.next_block(vec![]);
        }
        "msg" | "nop" => {
            web::send_msg(text().to_string());
            e.send_msg(text());
        }
        "reset" => {
            web::reset();
            e.reset();
        }
        "bpm" => {
            web::set_bpm(num("v"));
            e.set_bpm(num("v"));
        }
        "sr" => {
            web::set_sr(num("v"));
            e.set_sr(num("v") as usize);
        }
        "seed" => {
            // a seed with a fraction is the whole number below it
            web::set_seed(num("v") + if op["half"].is_u64() { 0.5 } else { 0.0 });
            e.set_seed(num("v") as usize);
        }
        "amp" => web::set_track_amp(num("v")),
        "live" => web::live_coding_mode(num("v") > 0.),
        "sample" => {
            let channels = op["data"].as_array().unwrap();
            let flat: Vec<f32> = channels.iter().flat_map(floats).collect();
            let name = op["name"].as_str().unwrap();
            let sr = op["sr"].as_u64().unwrap() as usize;
            web::add_sample(name.to_string(), flat.clone().into_boxed_slice(), channels.len(), sr);
            e.add_sample(name, Box::leak(flat.into_boxed_slice()), channels.len(), sr);
        }
        other => panic!("harness: unknown operation {other}"),
    }
    out
}

/// one history, read from standard input
fn one() {
    std::panic::set_hook(Box::new(|_| {}));
    let h: Value = serde_json::from_reader(std::io::stdin()).expect("json");
    let mut e: Engine<128> = Engine::new();
    let mut events = vec![];
    for op in h["ops"].as_array().unwrap() {
        let mut rec = op.as_object().unwrap().clone();
        rec.remove("text");
        let r = catch_unwind(AssertUnwindSafe(|| apply(&mut e, op)));
        let stop = r.is_err();
        match r {
            Ok(fields) => rec.extend(fields),
            Err(p) => _ = rec.insert("panic".into(), json!(run::panic_text(p))),
        }
        events.push(Value::Object(rec));
        if stop {
            break;
        }
    }
    let mut out = json!({"id": h["id"], "n": h["n"], "sr": h["sr"], "ev": events});
    if !h["tol"].is_null() {
        out["tol"] = h["tol"].clone();
    }
    println!("{out}");
}

fn each(h: &Value) -> Value {
    use std::process::{Command, Stdio};
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("one")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness: spawn");
    _ = child.stdin.take().unwrap().write_all(h.to_string().as_bytes());
    let out = child.wait_with_output().expect("harness: wait");
    serde_json::from_slice(&out.stdout).unwrap_or_else(
        |_| json!({"id": h["id"], "n": h["n"], "sr": h["sr"], "ev": [{"op": "hang", "panic": "process died"}]}),
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "one" => one(),
        "run" => run::parallel(&a[2], &a[3], each),
        _ => panic!("harness: unknown command"),
    }
}
