//! Replay of behaviours generated from the stock specification.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use nonasync::persistence::CloneNoPersistence;
use rgbstd::containers::*;
use rgbstd::persistence::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::proj::*;
use crate::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExportQ {
    pub c: String,
    #[serde(default)]
    pub outs: Vec<String>,
    #[serde(default)]
    pub secret: String,
    pub transfer: bool,
    /// Secret seals known by the receiver
    #[serde(default)]
    pub receiver: Vec<String>,
}

/// World with the alphabet of actions.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Alphabet {
    #[serde(flatten)]
    pub world: SWorld,
    #[serde(default)]
    pub cons: BTreeMap<String, ConsView>,
    #[serde(default)]
    pub fascias: BTreeMap<String, FasciaView>,
    #[serde(default)]
    pub chains: BTreeMap<String, BTreeMap<String, String>>,
    #[serde(default)]
    pub exports: BTreeMap<String, ExportQ>,
}

pub struct Ctx {
    pub a: Alphabet,
    pub w: World,
    pub outpoints: Vec<String>,
    valid: RefCell<BTreeMap<(String, String), Option<AnyCons>>>,
}

#[derive(Clone)]
pub enum AnyCons {
    C(ValidContract),
    T(ValidTransfer),
}

pub fn outpoints_of(w: &SWorld) -> Vec<String> {
    let mut set = std::collections::BTreeSet::new();
    for op in w.ops.values() {
        for a in &op.assigns {
            if a.tx == "@" {
                for (wn, x) in &w.witnesses {
                    let in_w = x.bundles.iter().any(|b| {
                        w.bundles[b].ops.iter().any(|o| std::ptr::eq(&w.ops[o], op))
                    });
                    if in_w {
                        set.insert(format!("{wn}:{}", a.vout));
                    }
                }
            } else {
                set.insert(format!("{}:{}", a.tx, a.vout));
            }
        }
    }
    set.into_iter().collect()
}

#[derive(Clone)]
pub struct St {
    pub stock: RcStock,
    pub chain: String,
}
pub struct RcStock(pub Stock);
impl Clone for RcStock {
    fn clone(&self) -> Self { RcStock(self.0.clone_no_persistence()) }
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
        .unwrap_or_else(|| s("?"));
    let mut t: String = m.lines().next().unwrap_or("").to_string();
    t.truncate(300);
    t
}

impl Ctx {
    pub fn new(a: Alphabet) -> Ctx {
        let w = World::build(a.world.clone());
        let outpoints = outpoints_of(&a.world);
        Ctx { a, w, outpoints, valid: default() }
    }

    pub fn init(&self, chain: &str) -> St {
        St { stock: RcStock(Stock::in_memory()), chain: s(chain) }
    }

    pub fn chain_of(&self, name: &str) -> Chain { self.w.chain(&self.a.chains[name]) }

    /// Validated consignment, or none if it doesn't pass validation.
    pub fn validated(&self, k: &str, chain: &str) -> Option<AnyCons> {
        let key = (s(k), s(chain));
        if let Some(v) = self.valid.borrow().get(&key) {
            return v.clone();
        }
        let view = &self.a.cons[k];
        let ch = self.chain_of(chain);
        let r = if view.transfer {
            self.w.consignment::<true>(view).validate(&ch, true).ok().map(AnyCons::T)
        } else {
            self.w.consignment::<false>(view).validate(&ch, true).ok().map(AnyCons::C)
        };
        self.valid.borrow_mut().insert(key, r.clone());
        r
    }

    pub fn status(&self, k: &str, chain: &str) -> String {
        match self.w.consignment::<true>(&self.a.cons[k]).validate(&self.chain_of(chain), true) {
            Ok(v) => format!("{:?}", v.split().1),
            Err((st, _)) => format!("{st:?}"),
        }
    }

    pub fn obs(&self, st: &St) -> Value {
        match catch_unwind(AssertUnwindSafe(|| stock_obs(&self.w, &st.stock.0, &self.outpoints))) {
            Ok(v) => v,
            Err(e) => json!({"panic": panic_msg(e)}),
        }
    }

    /// Executes an action on the real stock and returns what the caller gets.
    pub fn step(&self, st: &mut St, act: &str) -> Value {
        match catch_unwind(AssertUnwindSafe(|| self.step_inner(st, act))) {
            Ok(v) => v,
            Err(e) => json!({"panic": panic_msg(e)}),
        }
    }

    fn step_inner(&self, st: &mut St, act: &str) -> Value {
        let p: Vec<&str> = act.split(' ').collect();
        match p[0] {
            "chain" => {
                st.chain = s(p[1]);
                json!({})
            }
            // accept a consignment; `acceptf k w`: the resolver is down for the witness `w` at the
            // moment of acceptance
            "accept" | "acceptf" => {
                let Some(k) = self.validated(p[1], &st.chain) else {
                    return json!({"valid": false, "ok": false});
                };
                let mut ch = self.chain_of(&st.chain);
                if p[0] == "acceptf" {
                    ch.ords.insert(self.w.wid(p[2]), s("E"));
                }
                let ok = match k {
                    AnyCons::C(k) => st.stock.0.import_contract(k, &ch).is_ok(),
                    AnyCons::T(k) => st.stock.0.accept_transfer(k, &ch).is_ok(),
                };
                json!({"valid": true, "ok": ok})
            }
            "fascia" => {
                let f = self.w.fascia(&self.a.fascias[p[1]]);
                let ok = st.stock.0.consume_fascia(f, self.chain_of(&st.chain)).is_ok();
                json!({"ok": ok})
            }
            "secret" => {
                let r = st.stock.0.store_secret_seal(self.w.seals[p[1]]);
                match r {
                    Ok(new) => json!({"ok": true, "new": new}),
                    Err(_) => json!({"ok": false}),
                }
            }
            "refresh" => {
                let after: u32 = p[1].parse().unwrap();
                match st.stock.0.update_witnesses(self.chain_of(&st.chain), after) {
                    Ok(r) => {
                        let failed: Vec<String> =
                            r.failed.keys().map(|x| self.w.wname(*x)).collect();
                        json!({"ok": true, "succeeded": r.succeeded, "failed": failed})
                    }
                    Err(_) => json!({"ok": false}),
                }
            }
            "export" => {
                let q = &self.a.exports[p[1]];
                let c = self.w.contracts[&q.c];
                let ch = self.chain_of(&st.chain);
                if q.transfer {
                    let outs: Vec<_> =
                        q.outs.iter().map(|o| self.w.output_seal(&format!("T:{o}"))).collect();
                    let sec = if q.secret.is_empty() { None } else { Some(self.w.secret(&q.secret)) };
                    match st.stock.0.transfer(c, outs, sec) {
                        Err(_) => json!({"ok": false}),
                        Ok(k) => {
                            let v = consignment_obs(&self.w, &k);
                            self.after_export(v, k, q, &ch)
                        }
                    }
                } else {
                    match st.stock.0.export_contract(c) {
                        Err(_) => json!({"ok": false}),
                        Ok(k) => {
                            let v = consignment_obs(&self.w, &k);
                            self.after_export(v, k, q, &ch)
                        }
                    }
                }
            }
            _ => panic!("unknown action {act}"),
        }
    }

    fn after_export<const T: bool>(
        &self,
        v: Value,
        k: Consignment<T>,
        q: &ExportQ,
        ch: &Chain,
    ) -> Value {
        // The receiver starts from an empty stock.
        let mut fresh = Stock::in_memory();
        for sec in &q.receiver {
            fresh.store_secret_seal(self.w.seals[sec]).expect("secret");
        }
        match k.validate(ch, true) {
            Err(_) => json!({"ok": true, "k": v, "valid": false}),
            Ok(k) => {
                let (k, _) = k.split();
                // re-validate to get a typed container
                let ok = if T {
                    let k: Transfer = retype(k);
                    fresh.accept_transfer(k.validate(ch, true).ok().unwrap(), ch).is_ok()
                } else {
                    let k: Contract = retype(k);
                    fresh.import_contract(k.validate(ch, true).ok().unwrap(), ch).is_ok()
                };
                let o = stock_obs(&self.w, &fresh, &self.outpoints);
                json!({"ok": true, "k": v, "valid": true, "accepted": ok, "fresh": o})
            }
        }
    }
}

fn retype<const A: bool, const B: bool>(k: Consignment<A>) -> Consignment<B> {
    Consignment {
        version: k.version,
        transfer: k.transfer,
        terminals: k.terminals,
        genesis: k.genesis,
        extensions: k.extensions,
        bundles: k.bundles,
        schema: k.schema,
        ifaces: k.ifaces,
        supplements: k.supplements,
        types: k.types,
        scripts: k.scripts,
        attachments: k.attachments,
        signatures: k.signatures,
    }
}

fn default<T: Default>() -> T { T::default() }

/// Edge of the state graph of the specification.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edge {
    /// initial chain state
    pub i: String,
    /// path
    pub p: Vec<String>,
    /// action
    pub a: String,
    /// returned value
    pub r: Value,
    /// observable state after the action
    pub o: Value,
}

#[derive(Clone, Debug, Serialize)]
pub struct Divergence {
    pub world: String,
    pub init: String,
    pub path: Vec<String>,
    pub act: String,
    /// The call fails by the specification.
    pub failed: bool,
    pub diffs: Vec<(String, String)>,
}

/// Augmented description of the world for the specification.
pub fn prepare(raw: &Value) -> Value {
    let a: Alphabet = serde_json::from_value(raw.clone()).expect("world");
    let w = World::build(a.world.clone());
    let mut out = raw.as_object().unwrap().clone();
    let mut ops = serde_json::Map::new();
    let mut opouts = serde_json::Map::new();
    let mut nonces: Vec<u64> = a.world.ops.values().map(|o| nonce_of(o)).collect();
    nonces.sort();
    nonces.dedup();
    for (name, op) in &a.world.ops {
        let mut cnt: BTreeMap<String, usize> = default();
        let mut outs = vec![];
        for x in &op.assigns {
            let n = cnt.entry(x.ty.clone()).or_default();
            let id = format!("{name}/{}/{}", x.ty, n);
            opouts.insert(
                id.clone(),
                json!({
                    "op": name, "ty": x.ty, "no": *n, "val": x.val.to_string(), "m": x.m, "tx": x.tx,
                    "vout": x.vout, "sid": seal_name(x, name, *n as u16),
                }),
            );
            outs.push(id);
            *n += 1;
        }
        let mut globals: BTreeMap<&str, Vec<String>> =
            GTY.iter().map(|(n, _)| (*n, vec![])).collect();
        for g in &op.globals {
            globals.get_mut(g.ty.as_str()).unwrap().push(g.val.to_string());
        }
        ops.insert(
            name.clone(),
            json!({
                "contract": op.contract, "kind": op.kind, "tt": op.tt,
                "nonceRank": nonces.binary_search(&nonce_of(op)).unwrap(),
                "inputs": op.inputs, "outs": outs, "globals": globals,
                "redeems": op.redeems.clone().unwrap_or_default(), "valency": op.valency,
            }),
        );
    }
    out.insert(s("ops"), Value::Object(ops));
    out.insert(s("opouts"), Value::Object(opouts));
    out.insert(s("outpoints"), json!(outpoints_of(&a.world)));
    out.insert(s("rank"), w.ranks());
    let input_at: BTreeMap<&String, BTreeMap<String, &String>> = a
        .world
        .witnesses
        .iter()
        .map(|(n, x)| (n, x.inputs.iter().enumerate().map(|(i, o)| (i.to_string(), o)).collect()))
        .collect();
    out.insert(s("inputAt"), json!(input_at));
    out.insert(s("cons"), json!(a.cons));
    out.insert(s("fascias"), json!(a.fascias));
    out.insert(s("exports"), json!(a.exports));
    out.insert(s("chains"), json!(a.chains));
    Value::Object(out)
}

fn nonce_of(o: &SOp) -> u64 { o.nonce.unwrap_or(u64::MAX) }

/// Replays edges; returns (number of executed steps, divergences).
pub fn replay(world: &str, a: &Alphabet, edges: Vec<Edge>, threads: usize) -> (usize, Vec<Divergence>) {
    let mut edges = edges;
    edges.sort_by(|x, y| (&x.i, &x.p, &x.a).cmp(&(&y.i, &y.p, &y.a)));
    let n = edges.len();
    let chunk = (n / (threads * 4).max(1)).max(1);
    let chunks: Vec<Vec<Edge>> = edges.chunks(chunk).map(|c| c.to_vec()).collect();
    let queue = std::sync::Mutex::new(chunks);
    let res = std::sync::Mutex::new((0usize, vec![]));
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let ctx = Ctx::new(a.clone());
                    loop {
                        let Some(c) = queue.lock().unwrap().pop() else { break };
                        let (k, d) = replay_chunk(world, &ctx, &c);
                        let mut r = res.lock().unwrap();
                        r.0 += k;
                        r.1.extend(d);
                    }
                })
                .unwrap();
        }
    });
    res.into_inner().unwrap()
}

fn replay_chunk(world: &str, ctx: &Ctx, edges: &[Edge]) -> (usize, Vec<Divergence>) {
    let mut steps = 0;
    let mut res = vec![];
    let mut stack: Vec<(String, St)> = vec![];
    let mut init = String::new();
    for e in edges {
        if e.i != init || stack.is_empty() {
            init = e.i.clone();
            stack = vec![(s(""), ctx.init(&init))];
        }
        let mut common = 0;
        while common < e.p.len() && common + 1 < stack.len() && stack[common + 1].0 == e.p[common] {
            common += 1;
        }
        stack.truncate(common + 1);
        for act in &e.p[common..] {
            let mut st = stack.last().unwrap().1.clone();
            ctx.step(&mut st, act);
            steps += 1;
            stack.push((act.clone(), st));
        }
        let mut st = stack.last().unwrap().1.clone();
        let ret = ctx.step(&mut st, &e.a);
        steps += 1;
        let mut diffs = vec![];
        diff("ret", &normal(&e.r, false), &normal(&ret, false), &mut diffs);
        let obs = ctx.obs(&st);
        diff("obs", &normal(&e.o, false), &normal(&obs, false), &mut diffs);
        if !diffs.is_empty() {
            res.push(Divergence {
                world: s(world),
                init: e.i.clone(),
                path: e.p.clone(),
                act: e.a.clone(),
                failed: e.r.get("ok") == Some(&Value::Bool(false)),
                diffs,
            });
        }
    }
    (steps, res)
}
