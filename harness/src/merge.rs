//! Replay of merges of partially revealed copies.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::confinement::U32;
use bp::dbc::Anchor;
use rgbstd::containers::*;
use rgbstd::{Extension, Genesis, MergeReveal, Transition, TransitionBundle, XChain};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use strict_encoding::{StrictEncode, StrictWriter};

use crate::replay::panic_msg;
use crate::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Copy {
    k: String,
    id: String,
    #[serde(default)]
    lev: Value,
    #[serde(default)]
    ops: Vec<String>,
    #[serde(default)]
    m: BTreeMap<String, Vec<String>>,
    #[serde(default)]
    tx: bool,
    #[serde(default)]
    chain: String,
}

enum Obj {
    G(Genesis),
    T(Transition),
    E(Extension),
    B(TransitionBundle),
    A(AnchorSet),
    W(XPubWitness),
}

fn bytes(o: &Obj) -> Vec<u8> {
    fn enc<T: StrictEncode>(t: &T) -> Vec<u8> {
        t.strict_encode(StrictWriter::in_memory::<U32>())
            .map(|w| w.unbox().unconfine())
            .expect("in-memory")
    }
    match o {
        Obj::G(x) => enc(x),
        Obj::T(x) => enc(x),
        Obj::E(x) => enc(x),
        Obj::B(x) => enc(x),
        Obj::A(x) => enc(x),
        Obj::W(x) => enc(x),
    }
}

/// Name of what the object commits to.
fn commitment(w: &World, o: &Obj) -> String {
    use rgbstd::Operation;
    match o {
        Obj::G(x) => w.opname(x.id()),
        Obj::T(x) => w.opname(x.id()),
        Obj::E(x) => w.opname(x.id()),
        Obj::B(x) => w.bids.get(&x.bundle_id()).cloned().unwrap_or_default(),
        Obj::A(_) => s(""),
        Obj::W(x) => w.wname(x.map_ref(|x| x.txid())),
    }
}

fn levels_of(v: &Value) -> BTreeMap<String, String> {
    // an empty function is printed as an empty array
    match v {
        Value::Object(_) => serde_json::from_value(v.clone()).unwrap(),
        _ => BTreeMap::new(),
    }
}

fn build(w: &World, c: &Copy) -> Obj {
    let lev = levels_of(&c.lev);
    match c.k.as_str() {
        "op" => match &w.ops[&c.id] {
            Op::Genesis(_) => Obj::G(w.genesis_view(&w.spec.ops[&c.id].contract, &lev)),
            Op::Extension(_) => Obj::E(w.extension_view(&c.id, &lev)),
            Op::Transition(t) => {
                let mut t = t.clone();
                t.assignments =
                    conceal_assigns(&t.assignments, &|ty, no| World::lvl(&lev, &c.id, ty, no));
                Obj::T(t)
            }
        },
        "bundle" => Obj::B(w.bundle_view(&c.id, &c.ops, &lev)),
        "anchor" => {
            let t = c.m.get("T").map(|known| {
                let (block, proof) = &w.tapret[&c.id];
                (conceal_block(w, block, known), proof.clone())
            });
            let o = c.m.get("O").map(|known| {
                let (block, proof) = &w.opret[&c.id];
                (conceal_block(w, block, known), *proof)
            });
            Obj::A(match (t, o) {
                (Some((b, p)), None) => AnchorSet::Tapret(Anchor::new(b, p)),
                (None, Some((b, p))) => AnchorSet::Opret(Anchor::new(b, p)),
                (Some((tb, tp)), Some((ob, op))) => AnchorSet::Double {
                    tapret: Anchor::new(tb, tp),
                    opret: Anchor::new(ob, op),
                },
                _ => panic!("empty anchor"),
            })
        }
        "witness" => {
            let XChain::Bitcoin(x) = w.pub_witness(&c.id, c.tx) else { unreachable!() };
            Obj::W(if c.chain == "liquid" { XChain::Liquid(x) } else { XChain::Bitcoin(x) })
        }
        k => panic!("unknown kind {k}"),
    }
}

fn conceal_block(
    w: &World,
    block: &commit_verify::mpc::MerkleBlock,
    known: &[String],
) -> commit_verify::mpc::MerkleBlock {
    let mut b = block.clone();
    b.conceal_except(known.iter().map(|c| w.contracts[c].into()).collect::<Vec<_>>())
        .expect("known leaves");
    b
}

fn merge(a: Obj, b: Obj) -> Result<Obj, String> {
    macro_rules! m {
        ($a:expr, $b:expr, $k:ident) => {
            $a.merge_reveal($b).map(Obj::$k).map_err(|e| e.to_string())
        };
    }
    match (a, b) {
        (Obj::G(a), Obj::G(b)) => m!(a, b, G),
        (Obj::T(a), Obj::T(b)) => m!(a, b, T),
        (Obj::E(a), Obj::E(b)) => m!(a, b, E),
        (Obj::B(a), Obj::B(b)) => m!(a, b, B),
        (Obj::A(a), Obj::A(b)) => m!(a, b, A),
        (Obj::W(a), Obj::W(b)) => m!(a, b, W),
        _ => panic!("different kinds of objects"),
    }
}

#[derive(Clone, Debug, Deserialize)]
struct Edge {
    p: Vec<Copy>,
    c: Copy,
    r: String,
    acc: Copy,
}

/// Returns a description of the difference.
fn check(w: &World, e: &Edge) -> Option<String> {
    let mut obj = build(w, &e.p[0]);
    let mut prev = e.p[0].id.clone();
    for c in &e.p[1..] {
        if c.id != prev || c.chain != e.p[0].chain {
            continue; // rejected before
        }
        prev = c.id.clone();
        match catch_unwind(AssertUnwindSafe(|| merge(obj, build(w, c)))) {
            Ok(Ok(o)) => obj = o,
            Ok(Err(x)) => return Some(format!("rejects an own copy: {x}")),
            Err(x) => return Some(format!("panic: {}", panic_msg(x))),
        }
    }
    let bundle = matches!(obj, Obj::B(_));
    match (catch_unwind(AssertUnwindSafe(|| merge(obj, build(w, &e.c)))), e.r.as_str()) {
        (Ok(Ok(o)), "ok") => {
            let want = build(w, &e.acc);
            if commitment(w, &o) != commitment(w, &want) {
                return Some(s("changes the commitment"));
            }
            if bytes(&o) != bytes(&want) {
                return Some(s("reveals something else than the specification"));
            }
            None
        }
        (Ok(Err(_)), "reject") => None,
        // different bundles are a programming error caught by an assertion
        (Err(_), "reject") if bundle => None,
        (Ok(Ok(_)), "reject") => Some(s("merges foreign data")),
        (Ok(Err(x)), _) => Some(format!("rejects an own copy: {x}")),
        (Err(x), _) => Some(format!("panic: {}", panic_msg(x))),
        (_, x) => panic!("unknown expectation {x}"),
    }
}

pub fn run(world: SWorld, edges: Vec<Value>) -> Value {
    let w = World::build(world);
    let mut divergences = vec![];
    let mut steps = 0;
    let n = edges.len();
    for v in edges {
        let e: Edge = serde_json::from_value(v.clone()).expect("edge");
        steps += e.p.len();
        if let Some(d) = check(&w, &e) {
            divergences.push(json!({"case": v, "what": d, "kind": e.c.k}));
        }
    }
    json!({"edges": n, "steps": steps, "divergences": divergences})
}
