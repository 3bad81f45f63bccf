//! Reading contracts through an interface.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use rgbstd::interface::*;
use rgbstd::info::ContractInfo;
use rgbstd::persistence::{ContractStateRead, Stock};
use rgbstd::*;
use serde_json::{json, Value};
use strict_encoding::FieldName;
use strict_types::StrictVal;

use crate::cases::{attempt, REFUSED};
use crate::world::*;

struct Scene {
    key: String,
    w: World,
    stock: Stock,
    ord: BTreeMap<String, String>,
    /// What the interface gives besides the state
    parts: Option<(Schema, IfaceImpl, strict_types::TypeSystem, ContractInfo)>,
}

thread_local! {
    static SCENE: RefCell<Option<Scene>> = const { RefCell::new(None) };
}

fn text<'a>(v: &'a Value, n: &str) -> &'a str { v[n].as_str().unwrap_or_else(|| panic!("{n} of {v}")) }
fn list(v: &Value) -> &Vec<Value> { v.as_array().expect("list") }

/// Outputs as the specification names them.
const OUTS: [(&str, &str); 6] =
    [("p1", "f1:0"), ("p2", "f2:0"), ("r1", "f0:0"), ("r2", "f0:1"), ("w1", "w1:2"), ("w2", "w2:2")];

fn scene(l: &Value) -> Scene {
    let mut ops = json!({
        "g": {"contract": "A", "kind": "genesis", "globals": [{"ty": "G1", "val": 1}, {"ty": "GN", "val": 10}]},
        "t1": {"contract": "A", "kind": "transition", "inputs": ["g/R/0"], "globals": [{"ty": "GN", "val": 11}]},
        "t2": {"contract": "A", "kind": "transition", "inputs": ["g/R/1"], "globals": [{"ty": "GN", "val": 12}]},
    });
    for op in ["g", "t1", "t2"] {
        let mut assigns = vec![];
        if op == "g" {
            for no in [0, 1] {
                assigns.push(json!({"ty": "R", "tx": "f0", "vout": no, "m": "T", "val": 0}));
            }
        }
        for p in list(l).iter().filter(|p| p["at"] == op) {
            let (tx, vout) = match text(p, "out") {
                "@" => ("@", 2),
                "p1" => ("f1", 0),
                "p2" => ("f2", 0),
                o => panic!("output {o}"),
            };
            assigns.push(json!({"ty": p["ty"], "tx": tx, "vout": vout, "m": "T", "val": p["v"]}));
        }
        ops[op]["assigns"] = json!(assigns);
    }
    let spec = json!({"order": ["g", "t1", "t2", "b1", "b2", "w1", "w2"], "funding": ["f0", "f1", "f2"],
        "contracts": {"A": {"genesis": "g", "schema": 0}}, "ops": ops,
        "bundles": {"b1": {"contract": "A", "m": "T", "ops": ["t1"], "map": {"0": "t1"}},
                    "b2": {"contract": "A", "m": "T", "ops": ["t2"], "map": {"0": "t2"}}},
        "witnesses": {"w1": {"inputs": ["f0:0"], "bundles": ["b1"]}, "w2": {"inputs": ["f0:1"], "bundles": ["b2"]}}});
    let w = World::build(serde_json::from_value(spec).expect("world"));
    let ord: BTreeMap<String, String> = [(s("w1"), s("T")), (s("w2"), s("T"))].into();
    let chain = w.chain(&ord);
    let mut stock = Stock::in_memory();
    let contract = w.consignment::<false>(&ConsView { contract: s("A"), iface: true, ..ConsView::default() });
    let contract = contract.validate(&chain, true).map_err(|e| e.0).expect("valid contract");
    stock.import_contract(contract, &chain).expect("contract imported");
    for n in ["1", "2"] {
        let view = FasciaView {
            w: format!("w{n}"),
            bundles: vec![BView { b: format!("b{n}"), ops: vec![format!("t{n}")] }],
            ..FasciaView::default()
        };
        stock.consume_fascia(w.fascia(&view), chain.clone()).expect("fascia consumed");
    }
    Scene { key: l.to_string(), w, stock, ord, parts: None }
}

impl Scene {
    fn out(&self, n: &Value) -> XOutpoint {
        let n = n.as_str().expect("output");
        self.w.outpoint(OUTS.iter().find(|(a, _)| *a == n).expect("known output").1)
    }
    fn out_name(&self, o: XOutputSeal) -> String {
        let n = self.w.xoutpoint_name(o.to_outpoint());
        OUTS.iter().find(|(_, b)| *b == n).map(|(a, _)| s(a)).unwrap_or(n)
    }
    fn wit_name(&self, w: Option<XWitnessId>) -> String { w.map(|w| self.w.wname(w)).unwrap_or(s("~")) }
    fn row<S: KnownState>(&self, a: OutputAssignment<S>, v: impl Fn(&S) -> Value) -> Value {
        json!({"ty": aty_name(a.opout.ty), "op": self.w.opname(a.opout.op), "w": self.wit_name(a.witness),
            "out": self.out_name(a.seal), "v": v(&a.state)})
    }
}

fn attach(a: &AttachState) -> Value {
    (0..9).find(|n| a.id == attach_id(*n)).map(|n| json!(n)).unwrap_or_else(|| json!(format!("{a:?}")))
}
fn state(a: &AllocatedState) -> Value {
    match a {
        AllocatedState::Void => json!(0),
        AllocatedState::Amount(x) => json!(x.value()),
        AllocatedState::Data(x) => json!(data_name(x)),
        AllocatedState::Attachment(x) => attach(x),
    }
}

fn sorted(mut v: Vec<Value>) -> Value {
    v.sort_by_key(|x| x.to_string());
    json!(v)
}
/// Order means nothing in the results.
fn normal(v: &Value) -> Value {
    match v {
        Value::Array(a) => sorted(a.iter().map(normal).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), normal(v))).collect()),
        v => v.clone(),
    }
}

fn read<S: ContractStateRead>(
    c: &Value,
    sc: &Scene,
    i: &ContractIface<S>,
    f: impl AssignmentsFilter + Copy,
) -> Value {
    let name = || FieldName::try_from(s(text(c, "name"))).expect("name");
    let rows = match text(c, "kind") {
        "any" => Ok(i.allocations(f).map(|a| sc.row(a, state)).collect::<Vec<_>>()),
        "fungible" => i.fungible(name(), f).map(|x| x.map(|a| sc.row(a, |x| json!(x.value()))).collect()),
        "rights" => i.rights(name(), f).map(|x| x.map(|a| sc.row(a, |_| json!(0))).collect()),
        "data" => i.data(name(), f).map(|x| x.map(|a| sc.row(a, |x| json!(data_name(x)))).collect()),
        "attach" => i.attachments(name(), f).map(|x| x.map(|a| sc.row(a, attach)).collect()),
        k => panic!("kind {k}"),
    };
    match rows {
        Ok(rows) => json!({"shows": rows}),
        Err(_) => json!({"shows": REFUSED}),
    }
}

fn excluded<S: ContractStateRead>(
    c: &Value,
    sc: &Scene,
    i: &ContractIface<S>,
    f: impl AssignmentsFilter,
) -> Value {
    if c["ft"]["ex"] == true {
        read(c, sc, i, &FilterExclude(f))
    } else {
        read(c, sc, i, &f)
    }
}

fn filtered<S: ContractStateRead>(c: &Value, sc: &Scene, i: &ContractIface<S>) -> Value {
    let o: Vec<XOutpoint> = list(&c["ft"]["outs"]).iter().map(|o| sc.out(o)).collect();
    match text(&c["ft"], "form") {
        "all" => excluded(c, sc, i, FilterIncludeAll),
        "none" => excluded(c, sc, i, None::<XOutpoint>),
        "some" => excluded(c, sc, i, Some(o)),
        "out" => {
            let r = excluded(c, sc, i, o[0]);
            if c["kind"] == "any" && c["ft"]["ex"] == false {
                let rows: Vec<Value> = i.outpoint_allocations(o[0]).map(|a| sc.row(a, state)).collect();
                assert_eq!(normal(&json!({ "shows": rows })), normal(&r), "allocations of an outpoint");
            }
            r
        }
        "vec" => excluded(c, sc, i, o),
        "slice" => excluded(c, sc, i, o.as_slice()),
        "array" => match o.len() {
            0 => excluded(c, sc, i, [] as [XOutpoint; 0]),
            1 => excluded(c, sc, i, [o[0]]),
            _ => excluded(c, sc, i, [o[0], o[1]]),
        },
        "hashset" => excluded(c, sc, i, o.into_iter().collect::<HashSet<_>>()),
        "btreeset" => excluded(c, sc, i, o.into_iter().collect::<BTreeSet<_>>()),
        "hashmap" => excluded(c, sc, i, o.into_iter().map(|o| (o, ())).collect::<HashMap<_, _>>()),
        "btreemap" => excluded(c, sc, i, o.into_iter().map(|o| (o, ())).collect::<BTreeMap<_, _>>()),
        "ref" => excluded(c, sc, i, &o),
        "mut" => {
            let mut o = o;
            excluded(c, sc, i, &mut o)
        }
        f => panic!("filter {f}"),
    }
}

#[derive(Clone)]
struct Witnesses {
    ids: BTreeSet<XWitnessId>,
    genesis: bool,
}
impl AssignmentsFilter for Witnesses {
    fn should_include(&self, _: impl Into<XOutpoint>, w: Option<XWitnessId>) -> bool {
        w.map(|w| self.ids.contains(&w)).unwrap_or(self.genesis)
    }
}

fn history<S: ContractStateRead>(c: &Value, sc: &Scene, i: &ContractIface<S>) -> Value {
    let outs: BTreeSet<XOutpoint> = list(&c["outs"]).iter().map(|o| sc.out(o)).collect();
    let wits = Witnesses {
        ids: list(&c["wits"]).iter().map(|w| sc.w.wid(w.as_str().expect("witness"))).collect(),
        genesis: c["g"] == true,
    };
    let show = |op: ContractOp| {
        if let Some(info) = op.witness {
            assert_eq!(ord_name(info.ord), text(&c["ord"], &sc.w.wname(info.id)), "status of a witness");
        }
        json!({"dir": op.direction.to_string(), "ty": aty_name(op.ty),
            "ops": op.opids.iter().map(|o| sc.w.opname(*o)).collect::<Vec<_>>(), "v": state(&op.state),
            "to": op.to.iter().map(|o| sc.out_name(*o)).collect::<Vec<_>>(),
            "w": sc.wit_name(op.witness.map(|w| w.id))})
    };
    let all = i.history(outs.clone(), wits.clone());
    // parts of the history by kinds of state
    let parts: Vec<ContractOp> = i
        .history_fungible(outs.clone(), wits.clone())
        .into_iter()
        .chain(i.history_rights(outs.clone(), wits.clone()))
        .chain(i.history_data(outs.clone(), wits.clone()))
        .chain(i.history_attach(outs, wits))
        .collect();
    let all = normal(&all.into_iter().map(show).collect());
    assert_eq!(normal(&parts.into_iter().map(show).collect()), all, "history by parts");
    all
}

fn number(v: StrictVal) -> Value {
    match v {
        StrictVal::Number(strict_types::value::StrictNum::Uint(n)) => json!(n),
        StrictVal::Tuple(f) if f.len() == 1 => number(f.into_iter().next().expect("field")),
        v => json!(format!("{v:?}")),
    }
}

pub fn call(c: &Value) -> (Value, Value) {
    let mut nc = c.clone();
    nc["out"] = json!(list(&c["out"]).iter().map(normal).collect::<Vec<_>>());
    let got = SCENE.with(|slot| {
        let mut slot = slot.borrow_mut();
        let key = c["l"].to_string();
        if slot.as_ref().map(|x| x.key != key).unwrap_or(true) {
            *slot = Some(scene(&c["l"]));
        }
        let sc = slot.as_mut().expect("scene");
        let ord: BTreeMap<String, String> = serde_json::from_value(c["ord"].clone()).expect("statuses");
        if sc.ord != ord {
            sc.stock.update_witnesses(sc.w.chain(&ord), 0).expect("witnesses updated");
            sc.ord = ord;
            sc.parts = None;
        }
        let id = sc.w.contracts["A"];
        if sc.parts.is_none() {
            let i = sc.stock.contract_iface(id, iface().iface_id()).expect("interface of the contract");
            sc.parts = Some((i.schema, i.iface, i.types, i.info));
        }
        let sc = &*sc;
        let (schema, iface, types, info) = sc.parts.clone().expect("interface");
        let state = sc.stock.contract_state(id).expect("state of the contract");
        let i = ContractIface { state, schema, iface, types, info };
        match text(c, "f") {
            "view.history" => attempt(|| history(c, sc, &i), |v| v),
            "view.state" if c["kind"] == "global" => attempt(
                || {
                    i.global(FieldName::try_from(s(text(c, "name"))).expect("name"))
                        .map(|x| x.map(number).collect::<Vec<_>>())
                },
                |r| r.map(|rows| json!({ "shows": rows })).unwrap_or(json!({"shows": REFUSED})),
            ),
            "view.state" => attempt(|| filtered(c, sc, &i), |v| v),
            f => panic!("function {f}"),
        }
    });
    (normal(&got), nc)
}
