use glicol::{Engine, EngineError};
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const S: f32 = 65536.;
const NAN: i64 = 2_000_000_000;
const HUGE: f64 = 1_000_000_000.;
/// a history that takes longer than this is recorded as hanging
const HANG: Duration = Duration::from_secs(20);

pub fn quant(x: f32) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    ((x as f64) * 65536.).round().clamp(-HUGE, HUGE) as i64
}

fn samples(v: &Value) -> Vec<f32> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_i64().unwrap_or(0) as f32 / S).collect())
        .unwrap_or_default()
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn answer(r: Result<(), EngineError>) -> (&'static str, String) {
    match r {
        Ok(()) => ("ok", String::new()),
        Err(EngineError::NonExistReference(s)) => ("ref", s),
        Err(EngineError::NonExistSample(s)) => ("sample", s),
        Err(EngineError::ParsingError(_)) => ("parse", String::new()),
    }
}

fn apply<const N: usize>(e: &mut Engine<N>, op: &Value) -> Map<String, Value> {
    let mut out = Map::new();
    match op["op"].as_str().unwrap_or("") {
        "update" | "bad" | "any" => {
            let (v, name) = answer(e.update_with_code(op["text"].as_str().unwrap_or("")));
            out.insert("v".into(), json!(v));
            out.insert("vn".into(), json!(name));
        }
        "block" => {
            let input: Vec<Vec<f32>> = op["in"]
                .as_array()
                .map(|a| a.iter().map(samples).collect())
                .unwrap_or_default();
            let block = e.next_block(input.iter().map(|v| v.as_slice()).collect());
            let ch = |i: usize| -> Vec<i64> { block[i].iter().map(|x| quant(*x)).collect() };
            out.insert("l".into(), json!(ch(0)));
            out.insert("r".into(), json!(ch(1)));
        }
        // a long time passes
        "skip" => {
            for _ in 0..op["blocks"].as_u64().unwrap_or(0) {
                e.next_block(vec![]);
            }
        }
        // the same things again and again: the most memory held in the second eighth, the least in the last
        // quarter, which is far enough apart for a list that doubles its room
        "again" => {
            let times = op["times"].as_u64().unwrap_or(0);
            let (mut early, mut late) = (i64::MIN, i64::MAX);
            let before = crate::memory::held();
            for k in 0..times {
                for o in op["ops"].as_array().unwrap() {
                    apply(e, o);
                }
                let now = crate::memory::held() - before;
                if k >= times / 8 && k < times / 4 {
                    early = early.max(now);
                } else if k >= times - times / 4 {
                    late = late.min(now);
                }
            }
            out.insert("early".into(), json!(early));
            out.insert("late".into(), json!(late));
        }
        "msg" | "nop" | "anymsg" => e.send_msg(op["text"].as_str().unwrap_or("")),
        "reset" => e.reset(),
        "bpm" | "anybpm" => e.set_bpm(op["v"].as_f64().unwrap_or(120.) as f32),
        "sr" => e.set_sr(op["v"].as_u64().unwrap_or(44100) as usize),
        "seed" => e.set_seed(op["v"].as_u64().unwrap_or(42) as usize),
        "amp" => e.set_track_amp(op["v"].as_f64().unwrap_or(1.) as f32),
        "sample" => {
            let channels = op["data"].as_array().unwrap();
            let flat: Vec<f32> = channels.iter().flat_map(samples).collect();
            e.add_sample(
                op["name"].as_str().unwrap(),
                Box::leak(flat.into_boxed_slice()),
                channels.len(),
                op["sr"].as_u64().unwrap() as usize,
            );
        }
        other => panic!("harness: unknown operation {other}"),
    }
    out
}

/// nodes and connections of an engine that has seen nothing but the given code
fn fresh_counts<const N: usize>(sr: usize, samples: &[Value], code: &str) -> Option<(usize, usize)> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut e: Engine<N> = Engine::new();
        e.set_sr(sr);
        for s in samples {
            apply(&mut e, s);
        }
        e.update_with_code(code).ok()?;
        Some((e.context.graph.node_count(), e.context.graph.edge_count()))
    }))
    .unwrap_or(None)
}

fn history<const N: usize>(h: &Value) -> Value {
    let mut e: Engine<N> = Engine::new();
    let sr = h["sr"].as_u64().unwrap_or(44100) as usize;
    e.set_sr(sr);
    let counts = h["graph"].as_bool().unwrap_or(false);
    let mut loaded: Vec<Value> = vec![];
    let mut fresh = None;
    let mut events = vec![];
    for op in h["ops"].as_array().unwrap() {
        let mut rec = op.as_object().unwrap().clone();
        rec.remove("text");
        rec.remove("ops");
        match catch_unwind(AssertUnwindSafe(|| apply(&mut e, op))) {
            // what a muted operation plays or loads is not recorded
            Ok(_) if rec.contains_key("mute") => rec.retain(|k, _| k != "in" && k != "data"),
            Ok(fields) => rec.extend(fields),
            Err(p) => {
                rec.insert("panic".into(), json!(panic_text(p)));
                events.push(Value::Object(rec));
                break;
            }
        }
        if counts {
            match op["op"].as_str().unwrap_or("") {
                "sample" => loaded.push(op.clone()),
                "reset" => fresh = fresh_counts::<N>(sr, &[], ""),
                "update" if rec["v"] == "ok" => {
                    fresh = fresh_counts::<N>(sr, &loaded, op["text"].as_str().unwrap_or(""))
                }
                _ => {}
            }
            if let Some((nodes, edges)) = fresh {
                rec.insert("gn".into(), json!(e.context.graph.node_count()));
                rec.insert("ge".into(), json!(e.context.graph.edge_count()));
                rec.insert("fn".into(), json!(nodes));
                rec.insert("fe".into(), json!(edges));
            }
        }
        events.push(Value::Object(rec));
    }
    // an engine in a bad state may not be able to be dropped
    let _ = catch_unwind(AssertUnwindSafe(move || drop(e)));
    let mut out = json!({"id": h["id"], "n": h["n"], "sr": h["sr"], "ev": events});
    if !h["tol"].is_null() {
        out["tol"] = h["tol"].clone();
        out["peak"] = json!(loudest(out["ev"].as_array().unwrap()));
    }
    out
}

/// the loudest sample of the recorded blocks, as far as the model can follow
fn loudest(events: &[Value]) -> i64 {
    let played = events.iter().flat_map(|e| [&e["l"], &e["r"]]);
    let values = played.filter_map(|c| c.as_array()).flatten().filter_map(|x| x.as_i64());
    values.map(|x| x.abs()).max().unwrap_or(0).min(64 * 65536)
}

fn dispatch(h: &Value) -> Value {
    match h["n"].as_u64().unwrap_or(0) {
        1 => history::<1>(h),
        2 => history::<2>(h),
        4 => history::<4>(h),
        8 => history::<8>(h),
        16 => history::<16>(h),
        32 => history::<32>(h),
        64 => history::<64>(h),
        128 => history::<128>(h),
        n => panic!("harness: unsupported block size {n}"),
    }
}

/// Runs `work` over the lines of a file on several threads; every result is one line.
/// how long a history may take: more when a long time passes in it
fn patience(h: &Value) -> Duration {
    let blocks: u64 = h["ops"].as_array().map_or(0, |a| a.iter().filter_map(|o| o["blocks"].as_u64()).sum());
    HANG + Duration::from_millis(blocks * h["n"].as_u64().unwrap_or(0) / 200)
}

pub fn parallel(input: &str, output: &str, work: fn(&Value) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::fs::File::open(input).expect("input");
    let items: Vec<Value> = std::io::BufReader::new(file)
        .lines()
        .map(|l| l.expect("line"))
        .filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(&l).expect("json"))
        .collect();
    let items = Arc::new(items);
    let next = Arc::new(Mutex::new(0usize));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(
        std::fs::File::create(output).expect("output"),
    )));
    let threads = 6;
    // what every thread is working on, and since when
    let busy: Arc<Mutex<Vec<Option<(usize, Instant)>>>> = Arc::new(Mutex::new(vec![None; threads]));
    let done = Arc::new(Mutex::new(0usize));
    for t in 0..threads {
        let (items, next, out, busy, done) =
            (items.clone(), next.clone(), out.clone(), busy.clone(), done.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                loop {
                    let i = {
                        let mut n = next.lock().unwrap();
                        *n += 1;
                        *n - 1
                    };
                    if i >= items.len() {
                        break;
                    }
                    busy.lock().unwrap()[t] = Some((i, Instant::now()));
                    let r = work(&items[i]);
                    busy.lock().unwrap()[t] = None;
                    let mut o = out.lock().unwrap();
                    writeln!(o, "{r}").expect("write");
                    o.flush().expect("flush");
                }
                *done.lock().unwrap() += 1;
            })
            .expect("thread");
    }
    loop {
        std::thread::sleep(Duration::from_millis(5));
        let stuck: Vec<usize> = busy
            .lock()
            .unwrap()
            .iter()
            .flatten()
            .filter(|(i, t)| t.elapsed() > patience(&items[*i]))
            .map(|(i, _)| *i)
            .collect();
        if !stuck.is_empty() {
            // the driver starts again with what is left
            let mut o = out.lock().unwrap();
            for i in stuck {
                let h = &items[i];
                let r = json!({"id": h["id"], "n": h["n"], "sr": h["sr"], "ch": 1, "dest": 0, "input": 1, "hang": true,
                               "ev": [{"op": "hang", "panic": "does not return"}]});
                writeln!(o, "{r}").expect("write");
            }
            o.flush().expect("flush");
            std::process::exit(3);
        }
        if *done.lock().unwrap() == threads {
            break;
        }
    }
}

/// The same history on an engine of block size N: every "play" is `unit` samples, cut into blocks.
fn stream<const N: usize>(h: &Value) -> Vec<Map<String, Value>> {
    let mut e: Engine<N> = Engine::new();
    e.set_sr(h["sr"].as_u64().unwrap_or(44100) as usize);
    let unit = h["unit"].as_u64().unwrap() as usize;
    let mut events = vec![];
    for op in h["ops"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| {
            if op["op"] != "play" {
                return apply(&mut e, op);
            }
            let input: Vec<Vec<f32>> = op["in"]
                .as_array()
                .map(|a| a.iter().map(samples).collect())
                .unwrap_or_default();
            let (mut l, mut r) = (vec![], vec![]);
            for start in (0..unit).step_by(N) {
                let block = e.next_block(input.iter().map(|v| &v[start..start + N]).collect());
                l.extend(block[0].iter().map(|x| quant(*x)));
                r.extend(block[1].iter().map(|x| quant(*x)));
            }
            let mut out = Map::new();
            out.insert("l".into(), json!(l));
            out.insert("r".into(), json!(r));
            out
        }));
        match r {
            Ok(fields) => events.push(fields),
            Err(p) => {
                let mut rec = Map::new();
                rec.insert("panic".into(), json!(panic_text(p)));
                events.push(rec);
                break;
            }
        }
    }
    let _ = catch_unwind(AssertUnwindSafe(move || drop(e)));
    events
}

fn sizes(h: &Value) -> Value {
    let runs: Vec<Vec<Map<String, Value>>> = h["sizes"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| match n.as_u64().unwrap() {
            2 => stream::<2>(h),
            4 => stream::<4>(h),
            8 => stream::<8>(h),
            16 => stream::<16>(h),
            32 => stream::<32>(h),
            64 => stream::<64>(h),
            128 => stream::<128>(h),
            256 => stream::<256>(h),
            n => panic!("harness: unsupported block size {n}"),
        })
        .collect();
    let events: Vec<Value> = h["ops"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, op)| {
            let mut rec = op.as_object().unwrap().clone();
            rec.remove("text");
            let each: Vec<Value> = runs
                .iter()
                .map(|r| r.get(i).map_or(json!({"panic": "stopped"}), |m| json!(m)))
                .collect();
            rec.insert("runs".into(), json!(each));
            Value::Object(rec)
        })
        .collect();
    let mut out = json!({"id": h["id"], "n": h["n"], "sr": h["sr"], "unit": h["unit"], "ev": events});
    if !h["tol"].is_null() {
        out["tol"] = h["tol"].clone();
    }
    out
}

pub fn main_sizes(input: &str, output: &str) {
    parallel(input, output, sizes);
}

pub fn main(input: &str, output: &str) {
    parallel(input, output, dispatch);
}

/// Prints the first values of the random streams the engine's random sources draw from.
pub fn noise(seeds: &str, count: &str) {
    use dasp_signal::Signal;
    let count: usize = count.parse().unwrap();
    let mut m = Map::new();
    for s in seeds.split(',') {
        let mut sig = dasp_signal::noise(s.parse().unwrap());
        let v: Vec<i64> = (0..count).map(|_| (sig.next() * 65536.).round() as i64).collect();
        m.insert(s.to_string(), json!(v));
    }
    println!("{}", Value::Object(m));
}
