//! Projection of a real stock to the observable state of the specification.

use std::collections::{BTreeMap, BTreeSet};

use amplify::num::u24;
use amplify::ByteArray;
use bp::dbc::tapret::TapretCommitment;
use commit_verify::CommitId;
use rgbstd::containers::*;
use rgbstd::persistence::*;
use rgbstd::vm::WitnessOrd;
use rgbstd::*;
use serde_json::{json, Map, Value};

use crate::world::*;

type Obj = Map<String, Value>;

fn assigned_state(w: &World, o: Opout) -> Option<Value> {
    let op = w.opids.get(&o.op)?;
    fn get<L: ExposedSeal>(a: &Assignments<L>, o: Opout) -> Option<Value> {
        let t = a.get(&o.ty)?;
        let i = o.no as usize;
        match t {
            TypedAssigns::Declarative(_) => Some(json!("()")),
            TypedAssigns::Fungible(v) => {
                v.get(i)?.as_revealed_state().map(|s| json!(format!("{s:?}")))
            }
            TypedAssigns::Structured(v) => {
                v.get(i)?.as_revealed_state().map(|s| json!(format!("{s:?}")))
            }
            TypedAssigns::Attachment(v) => {
                v.get(i)?.as_revealed_state().map(|s| json!(format!("{s:?}")))
            }
        }
    }
    match &w.ops[op] {
        Op::Genesis(g) => get(&g.assignments, o),
        Op::Extension(e) => get(&e.assignments, o),
        Op::Transition(t) => get(&t.assignments, o),
    }
}

fn val_name(w: &World, o: Opout, repr: String) -> String {
    // The full revealed state (value, blinding, asset tag, salt) must be the assigned one.
    if assigned_state(w, o) != Some(json!(repr)) {
        return format!("corrupted:{repr}");
    }
    spec_val(w, o)
}

pub fn spec_val(w: &World, o: Opout) -> String {
    let Some(op) = w.opids.get(&o.op) else { return s("?") };
    let sp = &w.spec.ops[op];
    let ty = aty_name(o.ty);
    sp.assigns
        .iter()
        .filter(|a| a.ty == ty)
        .nth(o.no as usize)
        .map(|a| a.val.to_string())
        .unwrap_or_else(|| s("?"))
}

macro_rules! entry {
    ($w:expr, $a:expr, $repr:expr) => {
        json!({
            "o": $w.opout_name($a.opout),
            "s": $w.output_seal_name(&$a.seal),
            "w": $a.witness.map(|x| $w.wname(x)).unwrap_or_else(|| s("~")),
            "v": val_name($w, $a.opout, $repr),
        })
    };
}

pub fn contract_obs<C: ContractStateRead>(w: &World, st: &C, outpoints: &[String]) -> Value {
    let mut own = vec![];
    for a in st.rights_all() {
        own.push(entry!(w, a, s("()")));
    }
    for a in st.fungible_all() {
        own.push(entry!(w, a, format!("{:?}", a.state)));
    }
    for a in st.data_all() {
        own.push(entry!(w, a, format!("{:?}", a.state)));
    }
    for a in st.attach_all() {
        own.push(entry!(w, a, format!("{:?}", a.state)));
    }
    let mut g = Obj::new();
    for (name, id) in GTY {
        let ty = GlobalStateType::with(id);
        match st.global(ty) {
            Err(_) => {
                g.insert(s(name), json!("unknown"));
            }
            Ok(mut it) => {
                let size: u24 = it.size();
                let mut vals = vec![];
                while let Some(d) = it.next() {
                    use std::borrow::Borrow;
                    vals.push(global_name(d.borrow()).to_string());
                    if vals.len() > 500 {
                        break;
                    }
                }
                g.insert(format!("{name}_seq"), json!(vals));
                g.insert(format!("{name}_n"), json!(size.into_u32()));
                let size2: u24 = it.size();
                if size2 != size {
                    g.insert(format!("{name}_resized"), json!(size2.into_u32()));
                }
            }
        }
    }
    let mut out = Obj::new();
    for o in outpoints {
        let op = w.outpoint(o);
        let mut vals: Vec<String> = vec![];
        for (n, id) in TY {
            let ty = AssignmentType::with(id);
            // state of other kinds is not found under the type
            let found = [
                (["R"].as_slice(), st.rights(op, ty) as usize),
                (["A", "F"].as_slice(), st.fungible(op, ty).count()),
                (["D"].as_slice(), st.data(op, ty).count()),
                (["X"].as_slice(), st.attach(op, ty).count()),
            ];
            for (types, found) in found {
                if !types.contains(&n) && found > 0 {
                    vals.push(format!("{}={found} as {n}", types[0]));
                }
            }
            match n {
                "A" | "F" => {
                    vals.extend(st.fungible(op, ty).map(|f| format!("{n}={}", f.as_u64())));
                }
                "D" => {
                    use std::borrow::Borrow;
                    vals.extend(st.data(op, ty).map(|d| format!("{n}={}", data_name(d.borrow()))));
                }
                "R" => {
                    for _ in 0..st.rights(op, ty) {
                        vals.push(format!("{n}=0"));
                    }
                }
                _ => {
                    use std::borrow::Borrow;
                    vals.extend(st.attach(op, ty).map(|d| {
                        let id: AttachId = d.borrow().id;
                        match w.attaches.get(&id) {
                            Some(v) => format!("{n}={v}"),
                            None => format!("{n}=?{id}"),
                        }
                    }));
                }
            }
        }
        if !vals.is_empty() {
            vals.sort();
            out.insert(o.clone(), json!(vals));
        }
    }
    let ords: BTreeMap<String, String> = w
        .spec
        .witnesses
        .keys()
        .filter_map(|n| st.witness_ord(w.wid(n)).map(|o| (n.clone(), ord_name(o))))
        .collect();
    json!({ "own": own, "g": g, "out": out, "ords": ords })
}

fn add_levels<L: ExposedSeal>(
    w: &World,
    opid: OpId,
    a: &Assignments<L>,
    lev: &mut BTreeMap<String, String>,
) {
    for ((ty, no), l) in levels(a) {
        lev.insert(w.opout_name(Opout::new(opid, ty, no)), l);
    }
}

pub fn bundle_known(
    w: &World,
    b: &TransitionBundle,
    lev: &mut BTreeMap<String, String>,
) -> (String, Vec<String>) {
    let id = b.bundle_id();
    let name = w.bids.get(&id).cloned().unwrap_or_else(|| format!("?{id}"));
    let mut ops = vec![];
    for (opid, t) in &b.known_transitions {
        if t.id() != *opid {
            ops.push(s("?mismatched id"));
        }
        ops.push(w.opname(*opid));
        add_levels(w, *opid, &t.assignments, lev);
    }
    (name, ops)
}

pub fn stash_obs<P: StashReadProvider>(w: &World, p: &P) -> Value {
    let mut lev: BTreeMap<String, String> = default();
    let mut gen = vec![];
    for g in p.geneses().unwrap() {
        gen.push(
            w.cnames.get(&g.contract_id()).cloned().unwrap_or_else(|| s("?contract")),
        );
        add_levels(w, g.id(), &g.assignments, &mut lev);
    }
    let mut ext = vec![];
    for id in p.extension_ids().unwrap() {
        ext.push(w.opname(id));
        match p.extension(id) {
            Ok(e) => add_levels(w, id, &e.assignments, &mut lev),
            Err(_) => ext.push(s("?unreadable")),
        }
    }
    let mut bun = Obj::new();
    for id in p.bundle_ids().unwrap() {
        match p.bundle(id) {
            Ok(b) => {
                let (n, ops) = bundle_known(w, b, &mut lev);
                bun.insert(n, json!(ops));
            }
            Err(_) => {
                bun.insert(s("?unreadable"), json!(1));
            }
        }
    }
    let mut wit = Obj::new();
    for id in p.witness_ids().unwrap() {
        match p.witness(id) {
            Ok(sw) => {
                let (tap, opr) = match &sw.anchors {
                    AnchorSet::Tapret(a) => (Some(&a.mpc_proof), None),
                    AnchorSet::Opret(a) => (None, Some(&a.mpc_proof)),
                    AnchorSet::Double { tapret, opret } => {
                        (Some(&tapret.mpc_proof), Some(&opret.mpc_proof))
                    }
                };
                let mut bs: BTreeSet<String> = default();
                for (m, block) in [("T", tap), ("O", opr)] {
                    let Some(block) = block else { continue };
                    for (c, msg) in block.to_known_message_map() {
                        let b = BundleId::from_byte_array(msg.to_byte_array());
                        let n = w.bids.get(&b).cloned().unwrap_or_else(|| format!("?{b}"));
                        let ok = w.spec.bundles.get(&n).is_some_and(|sb| {
                            sb.m == m && w.contracts[&sb.contract].to_byte_array() == c.to_byte_array()
                        });
                        bs.insert(if ok { n } else { format!("{n}@{m}{c}") });
                    }
                }
                let tx = match &sw.public {
                    XChain::Bitcoin(pw) => match pw.tx() {
                        None => json!(false),
                        Some(t) if Some(t) == w.txs.get(&w.wname(id)) => json!(true),
                        Some(_) => json!("wrong tx"),
                    },
                    _ => json!("wrong chain"),
                };
                wit.insert(w.wname(id), json!({ "b": bs, "tx": tx }));
            }
            Err(_) => {
                wit.insert(s("?unreadable"), json!(1));
            }
        }
    }
    let taprets: BTreeMap<_, _> = p.taprets().unwrap().collect();
    let anchored: BTreeMap<_, _> = p
        .witness_ids()
        .unwrap()
        .filter_map(|id| match p.witness(id).map(|sw| sw.anchors.clone()) {
            Ok(AnchorSet::Tapret(a) | AnchorSet::Double { tapret: a, .. }) => Some((id, TapretCommitment {
                mpc: a.mpc_proof.commit_id(),
                nonce: a.dbc_proof.path_proof.nonce(),
            })),
            _ => None,
        })
        .collect();
    if taprets != anchored {
        wit.insert(s("?taprets"), json!(taprets.keys().map(|id| w.wname(*id)).collect::<Vec<_>>()));
    }
    let sec: BTreeSet<String> = p
        .secret_seals()
        .unwrap()
        .map(|x| w.seals.iter().find(|(_, v)| **v == x).map(|(n, _)| n.clone()).unwrap_or(s("?")))
        .collect();
    json!({ "gen": gen, "ext": ext, "bun": bun, "lev": lev, "wit": wit, "sec": sec })
}

pub fn index_obs<P: IndexReadProvider>(w: &World, p: &P, outpoints: &[String]) -> Value {
    let mut opb = Obj::new();
    for (id, name) in &w.opids {
        if let Ok(b) = p.bundle_id_for_op(*id) {
            opb.insert(
                name.clone(),
                json!(w.bids.get(&b).cloned().unwrap_or_else(|| format!("?{b}"))),
            );
        }
    }
    let mut bw = Obj::new();
    for (id, name) in &w.bids {
        if let Ok((ws, c)) = p.bundle_info(*id) {
            let ws: Vec<String> = ws.map(|x| w.wname(x)).collect();
            bw.insert(
                name.clone(),
                json!({"w": ws, "c": w.cnames.get(&c).cloned().unwrap_or_else(|| s("?"))}),
            );
        }
    }
    let mut outs = Obj::new();
    let mut reg = vec![];
    for (c, id) in &w.contracts {
        if p.public_opouts(*id).is_ok() {
            reg.push(c.clone());
        }
        let mut m = Obj::new();
        for o in outpoints {
            if let Ok(set) = p.opouts_by_outputs(*id, [w.outpoint(o)]) {
                if !set.is_empty() {
                    let v: Vec<String> = set.into_iter().map(|x| w.opout_name(x)).collect();
                    m.insert(o.clone(), json!(v));
                }
            }
        }
        if !m.is_empty() {
            outs.insert(c.clone(), Value::Object(m));
        }
    }
    let mut terms = Obj::new();
    for name in w.seals.keys() {
        let set = p.opouts_by_terminals([w.secret(name)]).unwrap();
        if !set.is_empty() {
            let v: Vec<String> = set.into_iter().map(|x| w.opout_name(x)).collect();
            terms.insert(name.clone(), json!(v));
        }
    }
    let mut assigning = Obj::new();
    for o in outpoints {
        let v: Vec<String> = p
            .contracts_assigning(BTreeSet::from([w.outpoint(o)]))
            .unwrap()
            .map(|c| w.cnames.get(&c).cloned().unwrap_or_else(|| s("?")))
            .collect();
        if !v.is_empty() {
            assigning.insert(o.clone(), json!(v));
        }
    }
    let all: Vec<String> = p
        .contracts_assigning(outpoints.iter().map(|o| w.outpoint(o)).collect())
        .unwrap()
        .map(|c| w.cnames.get(&c).cloned().unwrap_or_else(|| s("?")))
        .collect();
    json!({ "opb": opb, "bw": bw, "reg": reg, "outs": outs, "terms": terms,
            "assigning": assigning, "assigningAll": all })
}

/// Observable state of the stock.
pub fn stock_obs<S, H, P>(w: &World, st: &Stock<S, H, P>, outpoints: &[String]) -> Value
where
    S: StashProvider,
    H: StateProvider,
    P: IndexProvider,
{
    let mut obs = stash_obs(w, st.as_stash_provider());
    let idx = index_obs(w, st.as_index_provider(), outpoints);
    let o = obs.as_object_mut().unwrap();
    for (k, v) in idx.as_object().unwrap() {
        o.insert(k.clone(), v.clone());
    }
    let mut cs = Obj::new();
    for (name, id) in &w.contracts {
        if let Ok(c) = st.as_state_provider().contract_state(*id) {
            cs.insert(name.clone(), contract_obs(w, &c, outpoints));
        }
    }
    o.insert(s("c"), Value::Object(cs));
    let mut valid = Obj::new();
    for name in w.spec.witnesses.keys() {
        if let Ok(v) = st.as_state_provider().is_valid_witness(w.wid(name)) {
            valid.insert(name.clone(), json!(v));
        }
    }
    o.insert(s("valid"), Value::Object(valid));
    obs
}

/// Abstract view of a consignment.
pub fn consignment_obs<const T: bool>(w: &World, c: &Consignment<T>) -> Value {
    let mut lev: BTreeMap<String, String> = default();
    add_levels(w, c.genesis.id(), &c.genesis.assignments, &mut lev);
    let exts: Vec<String> = c
        .extensions
        .iter()
        .map(|e| {
            add_levels(w, e.id(), &e.assignments, &mut lev);
            w.opname(e.id())
        })
        .collect();
    let mut kn = vec![];
    let mut wbs = vec![];
    for wb in &c.bundles {
        let wid = wb.witness_id();
        let mut bs = vec![];
        for b in wb.anchored_bundles.bundles() {
            let (n, ops) = bundle_known(w, b, &mut lev);
            for op in ops {
                kn.push(json!([n, op]));
            }
            bs.push(n);
        }
        let tx = match &wb.pub_witness {
            XChain::Bitcoin(pw) => pw.tx().is_some(),
            _ => false,
        };
        wbs.push(json!({"w": w.wname(wid), "tx": tx, "bs": bs}));
    }
    let term: BTreeMap<String, String> = c
        .terminals
        .iter()
        .map(|(b, s)| {
            (w.bids.get(b).cloned().unwrap_or_else(|| format!("?{b}")), w.secret_name(s))
        })
        .collect();
    json!({
        "c": w.cnames.get(&c.contract_id()).cloned().unwrap_or_else(|| s("?")),
        "transfer": c.transfer,
        "wbs": wbs, "kn": kn, "exts": exts, "lev": lev, "term": term,
    })
}

pub fn ord_of(o: WitnessOrd) -> String { ord_name(o) }

fn default<T: Default>() -> T { T::default() }

// ------------------------------------------------------------------ comparison

/// Normal form: arrays are multisets unless the key ends with `_seq`; empty containers are absent.
pub fn normal(v: &Value, seq: bool) -> Value {
    match v {
        Value::Array(a) => {
            let mut x: Vec<Value> = a.iter().map(|e| normal(e, false)).collect();
            if !seq {
                x.sort_by_key(|e| e.to_string());
            }
            Value::Array(x)
        }
        Value::Object(o) => {
            let mut m = Obj::new();
            for (k, e) in o {
                let n = normal(e, k.ends_with("_seq"));
                let empty = matches!(&n, Value::Array(a) if a.is_empty())
                    || matches!(&n, Value::Object(a) if a.is_empty());
                if !empty {
                    m.insert(k.clone(), n);
                }
            }
            Value::Object(m)
        }
        x => x.clone(),
    }
}

/// Paths at which two normalised values differ.
pub fn diff(path: &str, a: &Value, b: &Value, out: &mut Vec<(String, String)>) {
    if a == b {
        return;
    }
    let empty = |v: &Value| match v {
        Value::Array(x) => x.is_empty(),
        Value::Object(x) => x.is_empty(),
        Value::Null => true,
        _ => false,
    };
    if empty(a) && empty(b) {
        return;
    }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: BTreeSet<&String> = x.keys().chain(y.keys()).collect();
            for k in keys {
                diff(
                    &format!("{path}/{k}"),
                    x.get(k).unwrap_or(&Value::Null),
                    y.get(k).unwrap_or(&Value::Null),
                    out,
                );
            }
        }
        _ => {
            let cut = |v: &Value| {
                let mut t = v.to_string();
                if t.len() > 600 {
                    t.truncate(600);
                    t.push('…');
                }
                t
            };
            out.push((path.to_string(), format!("expected {} got {}", cut(a), cut(b))))
        }
    }
}
