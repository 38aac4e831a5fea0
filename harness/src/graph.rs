//! Histories of the synthesis library used directly: a context, nodes of our own that note what reaches them.
use crate::run::{panic_text, parallel};
use glicol_synth::{
    AudioContext, AudioContextBuilder, BoxedNodeSend, Buffer, GlicolNodeData, Input, Message, Node, NodeData, Pass, Sum,
    Sum2,
};
use petgraph::graph::{EdgeIndex, NodeIndex};
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

const N: usize = 4;
type Inputs = hashbrown::HashMap<usize, Input<N>>;

#[derive(Default)]
struct Notes {
    ran: Vec<Value>,
    got: Vec<Value>,
}

/// A node that mixes its inputs with weights by their order, and notes everything.
struct Probe {
    me: Arc<Mutex<usize>>,
    v: i64,
    order: Vec<usize>,
    notes: Arc<Mutex<Notes>>,
}

/// first and last sample of every channel
fn ends(buffers: &[Buffer<N>]) -> Value {
    json!(buffers.iter().map(|b| vec![b[0] as i64, b[N - 1] as i64]).collect::<Vec<_>>())
}

impl Node<N> for Probe {
    fn process(&mut self, inputs: &mut Inputs, output: &mut [Buffer<N>]) {
        for (c, out) in output.iter_mut().enumerate() {
            for i in 0..N {
                let mut x = self.v + 100 * c as i64 + i as i64;
                for (k, idx) in self.order.iter().enumerate() {
                    if let Some(input) = inputs.get(idx) {
                        let b = input.buffers();
                        x += (k as i64 + 1) * b.get(c).unwrap_or(&b[0])[i] as i64;
                    }
                }
                out[i] = x.rem_euclid(1000) as f32;
            }
        }
        let mut seen: Vec<(usize, usize, Value)> =
            inputs.iter().map(|(k, i)| (*k, i.node_id, ends(i.buffers()))).collect();
        seen.sort_by_key(|x| x.0);
        let seen: Vec<Value> =
            seen.into_iter().map(|(k, id, b)| json!({"key": k, "id": id, "buf": b})).collect();
        self.notes.lock().unwrap().ran.push(json!({"idx": *self.me.lock().unwrap(), "seen": seen}));
    }

    fn send_msg(&mut self, info: Message) {
        let (k, a, b) = match info {
            Message::Index(i) => {
                self.order.push(i);
                ("index", i as i64, 0)
            }
            Message::IndexOrder(p, i) => {
                let at = p.min(self.order.len());
                self.order.insert(at, i);
                ("order", i as i64, p as i64)
            }
            Message::ResetOrder => {
                self.order.clear();
                ("reset", 0, 0)
            }
            Message::SetToNumber(p, v) => {
                self.v = v as i64;
                ("number", v as i64, p as i64)
            }
            _ => ("other", 0, 0),
        };
        let me = *self.me.lock().unwrap();
        self.notes.lock().unwrap().got.push(json!({"idx": me, "k": k, "a": a, "b": b}));
    }
}

struct World {
    ctx: AudioContext<N>,
    notes: Arc<Mutex<Notes>>,
    slots: Vec<NodeIndex>,
}

impl World {
    fn slot(&self, v: &Value) -> NodeIndex {
        match v.as_i64().unwrap() {
            -1 => self.ctx.destination,
            -2 => self.ctx.input,
            i => self.slots[i as usize],
        }
    }

    fn probe(&self, op: &Value) -> (Probe, Arc<Mutex<usize>>) {
        let me = Arc::new(Mutex::new(usize::MAX >> 40));
        let p = Probe { me: me.clone(), v: op["v"].as_i64().unwrap(), order: vec![], notes: self.notes.clone() };
        (p, me)
    }

    /// data of a node that is not in the graph yet
    fn data(&self, op: &Value) -> (GlicolNodeData<N>, Option<Arc<Mutex<usize>>>) {
        let ch = op["ch"].as_u64().unwrap() as usize;
        match op["kind"].as_str().unwrap() {
            "sum" => (Sum.to_boxed_nodedata(ch), None),
            "sum2" => (NodeData::multi_chan_node(ch, BoxedNodeSend::new(Sum2)), None),
            "pass" => (Pass.to_boxed_nodedata(ch), None),
            _ => {
                let (p, me) = self.probe(op);
                (p.to_boxed_nodedata(ch), Some(me))
            }
        }
    }

    fn add(&mut self, op: &Value) -> NodeIndex {
        let ch = op["ch"].as_u64().unwrap() as usize;
        let boxed = op["boxed"].as_bool().unwrap_or(false);
        macro_rules! put {
            ($node:expr) => {
                match ch {
                    1 => self.ctx.add_mono_node($node),
                    2 if op["v"].as_i64().unwrap_or(0) % 2 == 0 => self.ctx.add_stereo_node($node),
                    _ => self.ctx.add_multi_chan_node(ch, $node),
                }
            };
        }
        let idx = match op["kind"].as_str().unwrap() {
            "sum" => put!(Sum),
            "sum2" => put!(Sum2),
            "pass" => put!(Pass),
            _ => {
                let (p, me) = self.probe(op);
                let idx = if boxed { put!(Box::new(p)) } else { put!(p) };
                *me.lock().unwrap() = idx.index();
                idx
            }
        };
        self.slots.push(idx);
        idx
    }

    fn edges(&self, es: &[EdgeIndex]) -> Value {
        let ends: Vec<Vec<usize>> = es
            .iter()
            .map(|e| self.ctx.graph.edge_endpoints(*e).map_or(vec![], |(a, b)| vec![a.index(), b.index()]))
            .collect();
        json!(ends)
    }

    fn apply(&mut self, op: &Value) -> Map<String, Value> {
        let mut out = Map::new();
        let list = |w: &World| -> Vec<NodeIndex> { op["list"].as_array().unwrap().iter().map(|x| w.slot(x)).collect() };
        let mut names = |k: &str, v: Value| _ = out.insert(k.into(), v);
        match op["op"].as_str().unwrap() {
            "add" => {
                let idx = self.add(op);
                names("idx", json!(idx.index()));
                names("buf", ends(&self.ctx.graph[idx].buffers));
            }
            "connect" => {
                let (a, b) = (self.slot(&op["a"]), self.slot(&op["b"]));
                let e = self.ctx.connect(a, b);
                names("pairs", json!([[a.index(), b.index()]]));
                names("ends", self.edges(&[e]));
            }
            "order" => {
                let (a, b) = (self.slot(&op["a"]), self.slot(&op["b"]));
                let e = self.ctx.connect_with_order(a, b, op["pos"].as_u64().unwrap() as usize);
                names("pairs", json!([[a.index(), b.index()]]));
                names("ends", self.edges(&[e]));
            }
            "chain" => {
                let l = list(self);
                let pairs: Vec<Vec<usize>> = l.windows(2).map(|w| vec![w[0].index(), w[1].index()]).collect();
                let es = self.ctx.chain(l);
                names("pairs", json!(pairs));
                names("ends", self.edges(&es));
            }
            k @ ("chainboxed" | "nodechain") => {
                let made: Vec<_> = op["nodes"].as_array().unwrap().iter().map(|n| self.data(n)).collect();
                let (data, mes): (Vec<_>, Vec<_>) = made.into_iter().unzip();
                let first = self.notes.lock().unwrap().got.len();
                let (idxs, es) =
                    if k == "chainboxed" { self.ctx.chain_boxed(data) } else { self.ctx.add_node_chain(data) };
                // the nodes learn their index only now; messages came in the order of the chain
                for (idx, me) in idxs.iter().zip(&mes) {
                    if let Some(me) = me {
                        *me.lock().unwrap() = idx.index();
                    }
                }
                let probes: Vec<usize> = idxs
                    .iter()
                    .zip(&mes)
                    .skip(1)
                    .filter(|(_, me)| me.is_some())
                    .map(|(i, _)| i.index())
                    .collect();
                for (g, i) in self.notes.lock().unwrap().got[first..].iter_mut().zip(probes) {
                    g["idx"] = json!(i);
                }
                self.slots.extend(&idxs);
                let pairs: Vec<Vec<usize>> = idxs.windows(2).map(|w| vec![w[0].index(), w[1].index()]).collect();
                names("idxs", json!(idxs.iter().map(|i| i.index()).collect::<Vec<_>>()));
                names("pairs", json!(pairs));
                names("ends", self.edges(&es));
            }
            "remove" => {
                let a = self.slot(&op["a"]);
                let there = self.ctx.graph.remove_node(a).is_some();
                names("idx", json!(a.index()));
                names("there", json!(there));
            }
            "clear" => self.ctx.graph.clear_edges(),
            "msg" => {
                let a = self.slot(&op["a"]);
                names("idx", json!(a.index()));
                self.ctx.send_msg(a, Message::SetToNumber(op["pos"].as_u64().unwrap() as u8, op["v"].as_i64().unwrap() as f32));
            }
            "forget" => {
                let a = self.slot(&op["a"]);
                names("idx", json!(a.index()));
                self.ctx.send_msg(a, Message::ResetOrder);
            }
            "all" => self.ctx.send_msg_to_all(Message::SetToNumber(
                op["pos"].as_u64().unwrap() as u8,
                op["v"].as_i64().unwrap() as f32,
            )),
            "setin" => {
                let input = self.ctx.input;
                for (c, b) in self.ctx.graph[input].buffers.iter_mut().enumerate() {
                    for i in 0..N {
                        b[i] = (op["v"].as_i64().unwrap() + 100 * c as i64 + i as i64) as f32;
                    }
                }
            }
            "reset" => {
                self.ctx.reset();
                names("dest", json!(self.ctx.destination.index()));
                names("input", json!(self.ctx.input.index()));
            }
            "block" => {
                let block = ends(self.ctx.next_block());
                names("out", block);
                let mut bufs: Vec<Value> = vec![];
                for i in self.ctx.graph.node_indices() {
                    bufs.push(json!({"idx": i.index(), "buf": ends(&self.ctx.graph[i].buffers)}));
                }
                names("bufs", json!(bufs));
                names("ran", json!(std::mem::take(&mut self.notes.lock().unwrap().ran)));
            }
            other => panic!("harness: unknown operation {other}"),
        }
        out.insert("got".into(), json!(std::mem::take(&mut self.notes.lock().unwrap().got)));
        out
    }
}

fn history(h: &Value) -> Value {
    let channels = h["ch"].as_u64().unwrap() as usize;
    let mut b = AudioContextBuilder::<N>::new().channels(channels).sr(44100);
    if let Some(m) = h["max"].as_u64() {
        b = b.max_nodes(m as usize).max_edges(m as usize);
    }
    let mut events = vec![];
    let mut w = World { ctx: b.build(), notes: Default::default(), slots: vec![] };
    let (dest, input) = (w.ctx.destination.index(), w.ctx.input.index());
    for op in h["ops"].as_array().unwrap() {
        let mut rec = op.as_object().unwrap().clone();
        match catch_unwind(AssertUnwindSafe(|| w.apply(op))) {
            Ok(fields) => rec.extend(fields),
            Err(p) => {
                rec.insert("panic".into(), json!(panic_text(p)));
                events.push(Value::Object(rec));
                break;
            }
        }
        events.push(Value::Object(rec));
    }
    let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
    json!({"id": h["id"], "ch": channels, "dest": dest, "input": input, "ev": events})
}

pub fn main(input: &str, output: &str) {
    parallel(input, output, history);
}
