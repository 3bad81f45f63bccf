//! Composing batches of transitions for invoices.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::Wrapper;
use bp::seals::txout::TxPtr;
use bp::dbc::Method;
use bp::Vout;
use chrono::Utc;
use commit_verify::{CommitVerify, Conceal};
use rgbinvoice::*;
use rgbstd::containers::*;
use rgbstd::persistence::Stock;
use rgbstd::*;
use secp256k1_zkp::SECP256K1;
use serde_json::{json, Value};
use strict_encoding::{StrictDumb, FieldName, StrictDeserialize, StrictSerialize};

use crate::world::*;

struct Scene {
    key: String,
    w: World,
    stock: Stock,
    /// Allocations by their operation outputs
    names: BTreeMap<Opout, usize>,
    values: BTreeMap<Opout, RevealedValue>,
}

thread_local! {
    /// The last scene with each of the units
    static SCENES: RefCell<BTreeMap<u64, Scene>> = const { RefCell::new(BTreeMap::new()) };
}

fn text<'a>(v: &'a Value, n: &str) -> &'a str { v[n].as_str().unwrap_or_else(|| panic!("{n} of {v}")) }

/// Values of the specification are given in units.
fn unit(x: &Value) -> u64 {
    match text(x, "unit") {
        "huge" => 1 << 62,
        _ => 1,
    }
}

/// How often state of the type is told to be transferred.
fn velocity(c: &str, ty: AssignmentType) -> VelocityHint {
    match (c, aty_name(ty).as_str()) {
        ("A", "F") => VelocityHint::Frequent,
        ("A", "R") | ("C", "D") => VelocityHint::Seldom,
        ("C", _) => VelocityHint::Regular,
        _ => VelocityHint::Unspecified,
    }
}

fn supplement(c: &str, id: ContractId) -> Confined<BTreeSet<Supplement>, 0, 255> {
    if c == "B" {
        return Confined::default();
    }
    let mut u = Supplement {
        content_id: ContentRef::Genesis(id),
        timestamp: 1700000000,
        creator: Identity::default(),
        annotations: Confined::default(),
    };
    // annotations of anything else say nothing
    u.annotate_default(SupplSub::Assignment, SUPPL_ANNOT_VELOCITY, &VelocityHint::HighFrequency).expect("annotated");
    for ty in ["F", "A", "D", "X", "R"].map(aty) {
        let item = SupplItem::TypeNo(ty.to_inner());
        let v = velocity(c, ty);
        if v != VelocityHint::Unspecified {
            u.annotate(SupplSub::Assignment, item.clone(), SUPPL_ANNOT_VELOCITY, &v).expect("annotated");
        }
        u.annotate(SupplSub::Owned, item.clone(), SUPPL_ANNOT_VELOCITY, &VelocityHint::Episodic).expect("annotated");
        u.annotate(SupplSub::Assignment, item, "Other", &VelocityHint::Episodic).expect("annotated");
    }
    Confined::try_from([u].into()).expect("supplement")
}

/// A stock with contracts having the given allocations.
fn scene(key: String, l: &Value, unit: u64) -> Scene {
    let list = l.as_array().expect("layout");
    let assign = |a: &Value| {
        let k = if ["F", "A"].contains(&text(a, "ty")) { unit } else { 1 };
        let val = a["v"].as_u64().expect("value") * k;
        json!({"ty": a["ty"], "tx": format!("f{}", a["o"]), "vout": 0, "m": a["m"], "val": val})
    };
    let contracts = ["A", "B", "C"];
    let (mut cs, mut ops) = (json!({}), json!({}));
    let mut names = vec![];
    for c in contracts {
        let g = format!("g{c}");
        cs[c] = json!({"genesis": g, "schema": if c == "C" { 1 } else { 0 }});
        let mut assigns = vec![];
        let mut att = vec![];
        let mut nos: BTreeMap<String, usize> = BTreeMap::new();
        for (i, a) in list.iter().enumerate().filter(|(_, a)| a["c"] == c) {
            let op = if a["ty"] == "X" { format!("t{c}") } else { g.clone() };
            let no = nos.entry(s(text(a, "ty"))).and_modify(|n| *n += 1).or_insert(0);
            names.push((format!("{op}/{}/{no}", text(a, "ty")), i + 1));
            if a["ty"] == "X" { &mut att } else { &mut assigns }.push(assign(a));
        }
        // a right which transitions with attachments spend
        let no = nos.get("R").map(|n| n + 1).unwrap_or(0);
        assigns.push(json!({"ty": "R", "tx": "f0", "vout": 0, "m": "T", "val": 0}));
        ops[&g] = json!({"contract": c, "kind": "genesis", "assigns": assigns});
        if !att.is_empty() {
            ops[format!("t{c}")] =
                json!({"contract": c, "kind": "transition", "inputs": [format!("{g}/R/{no}")], "assigns": att});
        }
    }
    let with_att = ops.get("tA").is_some();
    let mut order = vec!["gA", "gB", "gC"];
    let (mut bundles, mut witnesses) = (json!({}), json!({}));
    if with_att {
        order.extend(["tA", "b", "w"]);
        bundles = json!({"b": {"contract": "A", "m": "T", "ops": ["tA"], "map": {"0": "tA"}}});
        witnesses = json!({"w": {"inputs": ["f0:0"], "bundles": ["b"]}});
    }
    let spec = json!({"order": order, "funding": ["f0", "f1", "f2", "f3"], "contracts": cs, "ops": ops,
        "bundles": bundles, "witnesses": witnesses});
    let w = World::build(serde_json::from_value(spec).expect("world"));
    let chain = w.chain(&if with_att { [(s("w"), s("M10"))].into() } else { BTreeMap::new() });
    let mut stock = Stock::in_memory();
    for c in contracts {
        let mut contract = w.consignment::<false>(&ConsView { contract: s(c), iface: true, ..ConsView::default() });
        contract.supplements = supplement(c, contract.contract_id());
        let contract = contract.validate(&chain, true).map_err(|e| e.0).expect("valid contract");
        stock.import_contract(contract, &chain).expect("contract imported");
    }
    if with_att {
        let view = FasciaView { w: s("w"), bundles: vec![BView { b: s("b"), ops: vec![s("tA")] }], ..FasciaView::default() };
        stock.consume_fascia(w.fascia(&view), chain).expect("fascia consumed");
    }
    let names: BTreeMap<Opout, usize> = names.into_iter().map(|(n, i)| (w.opout(&n), i)).collect();
    let mut values = BTreeMap::new();
    for op in w.ops.values() {
        if let Op::Genesis(g) = op {
            for (ty, a) in g.assignments.iter() {
                for (no, x) in a.as_fungible().iter().enumerate() {
                    values.insert(Opout::new(g.id(), *ty, no as u16), *x.as_revealed_state().unwrap());
                }
            }
        }
    }
    Scene { key, w, stock, names, values }
}

fn fname(n: &str) -> FieldName { FieldName::try_from(s(n)).expect("name") }

fn asg_name(ty: &str) -> FieldName {
    fname(ANAMES.iter().find(|(k, _)| *k == ty).map(|(_, n)| *n).unwrap_or("bogus"))
}

pub fn secret() -> SecretSeal {
    GraphSeal::with_blinded_vout(method("T"), Vout::from_u32(9), 77).conceal()
}

fn invoice(w: &World, x: &Value) -> RgbInvoice {
    let ben = match text(x, "ben") {
        "blind" => Beneficiary::BlindedSeal(secret()),
        m => Beneficiary::WitnessVout(Pay2Vout {
            method: method(m),
            address: ::invoice::AddressPayload::Pkh(bp::PubkeyHash::from([7u8; 20])),
        }),
    };
    let mut inv = RgbInvoiceBuilder::new(XChainNet::bitcoin(::invoice::Network::Testnet3, ben)).finish();
    inv.contract = match text(x, "contract") {
        "none" => None,
        "unknown" => Some(ContractId::from(h32("unknown contract"))),
        c => Some(w.contracts[c]),
    };
    inv.iface = match text(x, "iface") {
        "none" => None,
        "unknown" => Some(strict_encoding::TypeName::from("UnknownIface")),
        _ => Some(iface().name),
    };
    inv.operation = match text(x, "op") {
        "none" => None,
        n => Some(fname(n)),
    };
    inv.assignment = match text(x, "asg") {
        "none" => None,
        n => Some(asg_name(n)),
    };
    let v = x["st"][1].as_u64().expect("value");
    inv.owned_state = match x["st"][0].as_str().expect("state") {
        "amount" => InvoiceState::Amount(Amount::from(v * unit(x))),
        "data" => InvoiceState::Data(NonFungible::RGB21(Allocation::with(v as u32, 1u64))),
        _ => InvoiceState::Void,
    };
    inv.expiry = match text(x, "exp") {
        "none" => None,
        "past" => Some(Utc::now().timestamp() - 1000),
        _ => Some(Utc::now().timestamp() + 100_000),
    };
    inv
}

fn reason(e: &str) -> String {
    let e = e.strip_prefix("InvalidInput(").or(e.strip_prefix("StashData(")).unwrap_or(e);
    let known = [
        ("InvoiceExpired", "expired"),
        ("NoContract", "nocontract"),
        ("NoIface)", "noiface"),
        ("InsufficientState", "insufficient"),
        ("BeneficiaryVout", "benvout"),
        ("NoBeneficiaryOutput", "nobenout"),
        ("NoBlankOrChange", "nochange"),
        ("Builder(NoDefaultAssignment", "noassign"),
        ("Builder(InvalidStateField", "noassign"),
        ("Builder(InvalidStateType", "kind"),
        ("Builder(TransitionNotFound", "noop"),
        ("Builder(NoOperationSubtype", "noop"),
        ("StateOverflow", "toomuch"),
        ("UnsupportedState", "unsupported"),
        ("StashInconsistency(ContractAbsent", "unknown"),
        ("StashInconsistency(IfaceAbsent", "unknown"),
    ];
    known.iter().find(|(p, _)| e.starts_with(p)).map(|(_, r)| s(r)).unwrap_or_else(|| e.chars().take(120).collect())
}

fn type_no(ty: AssignmentType) -> u32 {
    match aty_name(ty).as_str() {
        "A" => 1,
        "F" => 3,
        "D" => 4,
        "R" => 5,
        "X" => 6,
        t => panic!("type {t}"),
    }
}

fn dest(seal: Option<&XChain<GraphSeal>>, secret_seal: XChain<SecretSeal>) -> Value {
    match seal {
        None if secret_seal == XChain::Bitcoin(secret()) => json!([-1, "ben"]),
        None => json!([-1, "unknown"]),
        Some(XChain::Bitcoin(x)) => match x.txid {
            TxPtr::WitnessTx => json!([x.vout.into_u32(), method_name(x.method)]),
            TxPtr::Txid(t) => json!([t.to_string(), method_name(x.method)]),
        },
        Some(x) => json!([format!("{x:?}"), "?"]),
    }
}

/// Assigned state: type, value, destination.
fn assigned(t: &Transition) -> Vec<(AssignmentType, u64, Value, Option<RevealedValue>)> {
    let mut res = vec![];
    for (ty, a) in t.assignments.iter() {
        macro_rules! each {
            ($list:expr, $val:expr, $raw:expr) => {
                for x in $list {
                    let st = x.as_revealed_state().expect("revealed state");
                    let val = $val;
                    let raw = $raw;
                    let d = dest(x.revealed_seal().as_ref(), x.to_confidential_seal());
                    res.push((*ty, val(st), d, raw(st)));
                }
            };
        }
        match a {
            TypedAssigns::Declarative(l) => each!(l, |_: &VoidState| 0, |_: &VoidState| None),
            TypedAssigns::Fungible(l) => {
                each!(l, |v: &RevealedValue| v.value.as_u64(), |v: &RevealedValue| Some(*v))
            }
            TypedAssigns::Structured(l) => each!(
                l,
                |v: &RevealedData| {
                    if v.value == data_val(data_name(&v.value)) { data_name(&v.value) } else { u64::MAX }
                },
                |_: &RevealedData| None
            ),
            TypedAssigns::Attachment(l) => each!(
                l,
                |v: &RevealedAttach| {
                    (0..100).find(|n| attach_id(*n) == v.file.id && v.file.media_type == MediaType::Any).unwrap_or(u64::MAX)
                },
                |_: &RevealedAttach| None
            ),
        }
    }
    res
}

fn balanced(sc: &Scene, t: &Transition) -> bool {
    let mut sums: BTreeMap<AssignmentType, (Vec<_>, Vec<_>)> = BTreeMap::new();
    for i in t.inputs.iter() {
        if let Some(v) = sc.values.get(&i.prev_out) {
            sums.entry(i.prev_out.ty).or_default().0.push(*v);
        }
    }
    for (ty, _, _, v) in assigned(t) {
        if let Some(v) = v {
            sums.entry(ty).or_default().1.push(v);
        }
    }
    let commit = |l: &[RevealedValue]| l.iter().map(|v| PedersenCommitment::commit(v).into_inner()).collect::<Vec<_>>();
    sums.iter().all(|(ty, (i, o))| {
        let sum = |l: &[RevealedValue]| l.iter().map(|v| v.value.as_u64() as u128).sum::<u128>();
        let c = &sc.w.cnames[&t.contract_id];
        sum(i) == sum(o)
            && o.iter().all(|v| v.tag == asset_tag(c, *ty))
            && secp256k1_zkp::verify_commitments_sum_to_equal(SECP256K1, &commit(i), &commit(o))
    })
}

fn sorted(mut v: Vec<Value>) -> Value {
    v.sort_by_key(|x| x.to_string());
    json!(v)
}

/// Sets of the specification come in any order.
fn normal(out: &Value) -> Value {
    let list = |v: &Value| v.as_array().cloned().unwrap_or_default();
    let mut o = out.clone();
    let txs = list(&out["txs"])
        .into_iter()
        .map(|mut t| {
            for k in ["ins", "outs", "keep"] {
                t[k] = sorted(list(&t[k]));
            }
            t
        })
        .collect();
    o["txs"] = sorted(txs);
    o["amounts"] = sorted(list(&out["amounts"]));
    o
}

fn units(n: u128, unit: u64) -> u64 {
    assert_eq!(n % unit as u128, 0, "part of a unit");
    (n / unit as u128) as u64
}

fn project(sc: &Scene, x: &Value, batch: &Batch, coherent: bool) -> Value {
    let asked = match (text(x, "asg"), text(x, "op")) {
        ("none", _) => aty("F"),
        (t, _) => aty(t),
    };
    let by_sum = x["st"][0] == "amount" && ["F", "A"].contains(&aty_name(asked).as_str());
    let mut amounts: BTreeMap<String, (Value, u128)> = BTreeMap::new();
    let mut txs = vec![];
    let infos: Vec<TransitionInfo> = batch.clone().into_iter().collect();
    let listed: usize = 1
        + batch.main.second.is_some() as usize
        + batch.blanks.iter().map(|b| 1 + b.second.is_some() as usize).sum::<usize>();
    assert_eq!(infos.len(), listed, "batch gives other number of transitions");
    for info in &infos {
        let t = &info.transition;
        let c = sc.w.cnames.get(&t.contract_id).cloned().unwrap_or_else(|| s("?"));
        assert!(balanced(sc, t), "transition of {c} is not balanced");
        let main = c == "A" && by_sum;
        let mut keep = vec![];
        for (ty, v, d, _) in assigned(t) {
            if main && ty == asked {
                assert!(v > 0, "nothing is assigned");
                amounts.entry(d.to_string()).or_insert((d, 0)).1 += v as u128;
            } else {
                let k = if ["F", "A"].contains(&aty_name(ty).as_str()) { unit(x) } else { 1 };
                assert_eq!(v % k, 0, "part of a unit");
                keep.push(json!([aty_name(ty), v / k, d]));
            }
        }
        let op = match t.transition_type {
            TransitionType::BLANK => s("blank"),
            tt => TNAMES.iter().find(|(_, n)| TransitionType::with(*n) == tt).map(|(n, _)| s(n)).unwrap_or_else(|| s("?")),
        };
        let ins = t
            .inputs
            .iter()
            .map(|i| sc.names.get(&i.prev_out).map(|n| json!(n)).unwrap_or_else(|| json!(sc.w.opout_name(i.prev_out))));
        let outs = info.inputs.iter().map(|o| {
            let n = sc.w.xoutpoint_name(*o);
            n.strip_prefix('f').and_then(|n| n.strip_suffix(":0")).and_then(|n| n.parse::<u64>().ok()).map(|n| json!(n)).unwrap_or(json!(n))
        });
        txs.push(json!({"c": c, "op": op, "m": method_name(info.method), "ins": sorted(ins.collect()),
            "outs": sorted(outs.collect()), "keep": sorted(keep)}));
        if coherent {
            assert_eq!(info.id, t.id(), "transition is listed under identifier of another one");
            let prio = match text(x, "prio") {
                "max" => u64::MAX,
                n => n.parse().unwrap(),
            };
            assert_eq!(t.nonce, prio, "other priority");
        }
    }
    if coherent {
        let ms: BTreeSet<&str> = infos.iter().map(|i| method_name(i.method)).collect();
        let set = batch.close_method_set();
        assert_eq!((set.has_tapret_first(), set.has_opret_first()), (ms.contains("T"), ms.contains("O")), "other closing methods");
        let mut other = batch.clone();
        other.set_priority(5);
        for i in other.clone() {
            assert_eq!((i.id, i.transition.nonce), (i.transition.id(), 5), "priority is set incoherently");
        }
        for (i, j) in other.into_iter().zip(&infos) {
            let mut t = i.transition.clone();
            t.nonce = j.transition.nonce;
            assert_eq!((t, i.inputs, i.method), (j.transition.clone(), j.inputs.clone(), j.method), "priority changes more");
        }
        let bytes = batch.to_strict_serialized::<{ u32::MAX as usize }>().expect("serialized").release();
        let read = Batch::from_strict_serialized::<{ u32::MAX as usize }>(Confined::from_checked(bytes.clone())).expect("batch reads back");
        assert_eq!(read.to_strict_serialized::<{ u32::MAX as usize }>().unwrap().release(), bytes, "batch reads back differently");
        mixed(batch);
    }
    normal(&json!({"ret": "ok", "txs": txs, "amounts": amounts.into_values().map(|(d, n)| json!([d, units(n, unit(x))])).collect::<Vec<_>>()}))
}

/// A transition is not listed with seals of different closing methods.
fn mixed(batch: &Batch) {
    let info = &batch.main.first;
    let seal = |m: &str, n: u32| XOutputSeal::Bitcoin(bp::seals::txout::ExplicitSeal::new(method(m), bp::Outpoint::new(h32("x").into(), Vout::from_u32(n))));
    for (a, b, ok) in [("T", "T", true), ("O", "O", true), ("T", "O", false), ("O", "T", false)] {
        let r = TransitionInfo::new(info.transition.clone(), [seal(a, 1), seal(b, 2)]);
        assert_eq!(r.is_ok(), ok, "transition with seals closed by {a} and {b}");
        if let Ok(i) = r {
            assert_eq!((i.id, i.method, i.inputs.len()), (info.transition.id(), method(a), 2), "transition listed wrong");
        }
    }
}

pub fn call(c: &Value) -> (Value, Value) {
    match c["f"].as_str() {
        Some("compose.fascia") => fascia(c),
        Some("compose.methods") => methods(c),
        _ => compose(c),
    }
}

fn sorted_out(c: &Value) -> Value {
    let mut case = c.clone();
    case["out"] = json!([sorted(c["out"][0].as_array().unwrap().clone())]);
    case
}

/// Bundles a fascia gives back.
fn fascia(c: &Value) -> (Value, Value) {
    let id = |c: &str| ContractId::from(h32(c));
    let bundle = |c: &str, n: u64| {
        let mut t = Transition::strict_dumb();
        t.contract_id = id(c);
        t.nonce = n;
        TransitionBundle {
            close_method: method(if n == 1 { "T" } else { "O" }),
            input_map: Confined::from_checked(BTreeMap::from([(Vin::from_u32(n as u32), t.id())])).into(),
            known_transitions: Confined::from_checked([(t.id(), t)].into()),
        }
    };
    let bundles: BTreeMap<_, _> = c["b"]
        .as_object()
        .unwrap()
        .iter()
        .map(|(c, l)| {
            let d = BundleDichotomy::from_iter(l.as_array().unwrap().iter().map(|n| bundle(c, n.as_u64().unwrap())));
            (id(c), d)
        })
        .collect();
    let witness = PubWitness::new(h32("witness").into());
    let fascia = Fascia { witness: XChain::Bitcoin(witness), anchor: StrictDumb::strict_dumb(), bundles: Confined::from_checked(bundles) };
    assert_eq!(fascia.witness_id(), XChain::Bitcoin(h32("witness").into()), "other witness");
    let got = fascia.into_bundles().into_iter().map(|(cid, b)| {
        let name = ["A", "B", "C"].into_iter().find(|c| id(c) == cid).unwrap();
        let n = (1..3).find(|n| bundle(name, *n) == b).expect("other bundle");
        json!([name, n])
    });
    (sorted(got.collect()), sorted_out(c))
}

/// Sets of closing methods.
fn methods(c: &Value) -> (Value, Value) {
    let q: Vec<Method> = c["q"].as_array().unwrap().iter().map(|m| method(m.as_str().unwrap())).collect();
    let names = |set: CloseMethodSet| {
        let mut l = vec![];
        if set.has_opret_first() {
            l.push("O");
        }
        if set.has_tapret_first() {
            l.push("T");
        }
        json!(l)
    };
    let mut set = CloseMethodSet::from(q[0]);
    let mut opt: Option<CloseMethodSet> = None;
    let mut sum = CloseMethodSet::from(q[0]);
    opt |= sum;
    for m in &q[1..] {
        set |= *m;
        opt |= CloseMethodSet::from(*m);
        sum = sum | Some(CloseMethodSet::from(*m));
    }
    let last = CloseMethodSet::from(*q.last().unwrap());
    assert_eq!((Some(set), set), (opt, sum), "closing methods are put together differently");
    assert_eq!((set | None, None | last, opt | last), (set, last, set), "closing methods are put together differently");
    (names(set), sorted_out(c))
}

fn compose(c: &Value) -> (Value, Value) {
    let mut case = c.clone();
    case["out"] = json!(c["out"].as_array().unwrap().iter().map(normal).collect::<Vec<_>>());
    SCENES.with_borrow_mut(|scenes| {
        let (key, u) = (c["l"].to_string(), unit(&c["x"]));
        if scenes.get(&u).map(|s| s.key != key).unwrap_or(true) {
            scenes.remove(&u);
            scenes.insert(u, scene(key, &c["l"], u));
        }
        let sc = &scenes[&u];
        let x = &c["x"];
        let inv = invoice(&sc.w, x);
        let m = method(text(x, "m"));
        let prev: Vec<XOutputSeal> = x["prev"]
            .as_array()
            .unwrap()
            .iter()
            .map(|o| sc.w.output_seal(&format!("{}:f{}:0", text(x, "m"), o)))
            .collect();
        let bvout = x["bvout"].as_i64().filter(|v| *v >= 0).map(|v| Vout::from_u32(v as u32));
        let alloc = text(x, "alloc");
        let allocator = |id: ContractId, ty: AssignmentType, hint| {
            assert_eq!(hint, velocity(&sc.w.cnames[&id], ty), "velocity of {ty}");
            let f = aty_name(ty) == "F";
            let a = sc.w.cnames[&id] == "A";
            match alloc {
                "bytype" => Some(type_no(ty)),
                "bycontract" => Some(if a { 1 } else { 3 }),
                "one" => Some(1),
                "two" => Some(2),
                "none" => None,
                "onlyF" => f.then_some(1),
                "notF" => (!f).then_some(1),
                "onlyA" => a.then_some(1),
                a => panic!("allocator {a}"),
            }
            .map(Vout::from_u32)
        };
        let n = Cell::new(0u64);
        let next = || {
            n.set(n.get() + 1);
            n.get()
        };
        let fixed = text(x, "blinder") == "fixed";
        let blinder = |id: ContractId, ty: AssignmentType| {
            let no = if fixed { 0 } else { next() };
            blinding(&format!("{id}/{ty}/{no}"))
        };
        let seal_blinder = |id: ContractId, ty: AssignmentType| {
            let no = if fixed { 0 } else { next() };
            h64(&format!("{id}/{ty}/{no}"))
        };
        let prio = match text(x, "prio") {
            "max" => u64::MAX,
            n => n.parse().unwrap(),
        };
        let whole = text(c, "suite") == "P04";
        let compose = || sc.stock.compose_deterministic(&inv, prev.clone(), m, bvout, prio, allocator, blinder, seal_blinder);
        match compose() {
            Err(e) => (json!({"ret": reason(&format!("{e:?}")), "txs": [], "amounts": []}), case),
            Ok(b) => {
                for _ in 0..if fixed && whole { 2 } else { 0 } {
                    assert_eq!(compose().expect("composed again"), b, "composed differently again");
                }
                (project(sc, x, &b, whole), case)
            }
        }
    })
}
