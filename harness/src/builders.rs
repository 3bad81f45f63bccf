//! Building contracts and transitions.

use std::collections::BTreeMap;
use std::sync::OnceLock;

use amplify::confinement::SmallBlob;
use amplify::Wrapper;
use bp::{Txid, Vout};
use commit_verify::CommitVerify;
use rgbstd::containers::{BuilderSeal, ValidContract};
use rgbstd::interface::{ContractBuilder, Iface, IfaceImpl, NamedField, TransitionBuilder};
use rgbstd::persistence::PersistedState;
use rgbstd::*;
use secp256k1_zkp::SECP256K1;
use serde_json::{json, Value};
use strict_encoding::{FieldName, StrictDecode, StrictDeserialize, StrictDumb, StrictEncode, StrictSerialize, StrictType};

use crate::world::*;

#[derive(Clone, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Verif")]
struct Short([u8; 4]);
impl StrictSerialize for Short {}
impl StrictDeserialize for Short {}

#[derive(Clone, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Verif")]
struct Long([u8; 20]);
impl StrictSerialize for Long {}
impl StrictDeserialize for Long {}

const METAS: [(&str, u16); 2] = [("mone", 5000), ("mtwo", 5001)];

type Setup = (Schema, Iface, IfaceImpl);

/// A schema with requirements, its interface and the implementation.
fn setup() -> &'static Setup {
    static S: OnceLock<Setup> = OnceLock::new();
    S.get_or_init(|| {
        let amount = types().get("RGBContract.Amount");
        let mut schema = schema_no(0);
        for (_, id) in METAS {
            schema.meta_types.insert(MetaType::with(id), amount).unwrap();
        }
        schema.genesis.metadata.push(MetaType::with(5000)).unwrap();
        schema.genesis.globals.insert(gty("G1"), Occurrences::Once).unwrap();
        schema.genesis.assignments.insert(aty("A"), Occurrences::NoneOrOnce).unwrap();
        let mut iface = iface();
        for (n, _) in METAS {
            iface.metadata.insert(fname(n), amount).unwrap();
        }
        let mut iimpl = iimpl(schema.schema_id());
        iimpl.iface_id = iface.iface_id();
        for (n, id) in METAS {
            iimpl.metadata.push(NamedField::with(MetaType::with(id), fname(n))).unwrap();
        }
        (schema, iface, iimpl)
    })
}

fn fname(n: &str) -> FieldName { FieldName::try_from(s(n)).expect("name") }
fn gname(t: GlobalStateType) -> String {
    GNAMES.iter().find(|(k, _)| gty(k) == t).map(|(_, n)| s(n)).unwrap_or_else(|| t.to_string())
}

fn text<'a>(v: &'a Value, n: &str) -> &'a str { v[n].as_str().unwrap_or_else(|| panic!("{n} of {v}")) }

fn txid() -> Txid { h32("builder").into() }
const SEALS: [&str; 5] = ["s1", "s2", "c1", "l1", "k1"];

trait Seals: ExposedSeal {
    fn make(n: u32) -> Self;
    fn seal(name: &str) -> BuilderSeal<Self> {
        let n = SEALS.iter().position(|s| *s == name).expect("seal") as u32;
        let seal = Self::make(n);
        match name {
            "c1" => BuilderSeal::Concealed(XChain::Bitcoin(seal.conceal())),
            "l1" => BuilderSeal::Revealed(XChain::Liquid(seal)),
            "k1" => BuilderSeal::Concealed(XChain::Liquid(seal.conceal())),
            _ => BuilderSeal::Revealed(XChain::Bitcoin(seal)),
        }
    }
    fn name(seal: Option<XChain<Self>>, secret: XChain<SecretSeal>) -> String {
        let b = match seal {
            Some(x) => BuilderSeal::Revealed(x),
            None => BuilderSeal::Concealed(secret),
        };
        SEALS.iter().find(|n| Self::seal(n) == b).map(|n| s(n)).unwrap_or_else(|| format!("{b:?}"))
    }
}
impl Seals for GenesisSeal {
    fn make(n: u32) -> Self { GenesisSeal::with_blinding(method("T"), txid(), Vout::from_u32(n), 100 + n as u64) }
}
impl Seals for GraphSeal {
    fn make(n: u32) -> Self { GraphSeal::with_blinded_vout(method(if n == 1 { "O" } else { "T" }), n, 100 + n as u64) }
}

fn num(v: &str) -> u64 { v.parse().unwrap_or(1) }
fn tag(ty: &str) -> AssetTag { asset_tag("B", aty(ty)) }
fn unknown() -> AssignmentType { AssignmentType::with(4999) }
fn any_type(t: &str) -> AssignmentType { if t == "Z" { unknown() } else { aty(t) } }
fn type_of(name: &str) -> &'static str { ANAMES.iter().find(|(_, n)| *n == name).map(|(k, _)| *k).unwrap_or("F") }
fn blind(x: &Value) -> BlindingFactor { blinding(&format!("{}{}", text(x, "seal"), text(x, "v"))) }
fn salt(x: &Value) -> u128 { h64(&format!("{}{}", text(x, "seal"), text(x, "v"))) as u128 }
fn data(v: &str) -> DataState {
    match v {
        "short" => DataState::from(SmallBlob::try_from(vec![7; 4]).unwrap()),
        "long" => DataState::from(SmallBlob::try_from(vec![7; 20]).unwrap()),
        v => data_val(num(v)),
    }
}
fn attach(v: &str) -> AttachState { AttachState { id: attach_id(num(v)), media_type: MediaType::Any } }
fn value(x: &Value, t: &str) -> RevealedValue { RevealedValue::with_blinding(num(text(x, "v")), blind(x), tag(t)) }
fn rdata(x: &Value) -> RevealedData { RevealedData::with_salt(data(text(x, "v")), salt(x)) }
fn rattach(x: &Value) -> RevealedAttach {
    let a = attach(text(x, "v"));
    RevealedAttach::with_salt(a.id, a.media_type, salt(x) as u64)
}
fn persisted(x: &Value, t: &str, own: Option<AssetTag>) -> PersistedState {
    let v = text(x, "v");
    match text(x, "k") {
        "fungible" => {
            let t = if ["A", "F"].contains(&t) { t } else { "F" };
            let tag = if v == "badtag" { asset_tag("other", aty(t)) } else { own.unwrap_or_else(|| tag(t)) };
            PersistedState::Amount(Amount::from(num(v)), blind(x), tag)
        }
        "data" => PersistedState::Data(data(v), salt(x)),
        "attach" => PersistedState::Attachment(attach(v), salt(x) as u64),
        _ => PersistedState::Void,
    }
}

/// Calls the given function with a value which is or isn't of the type of amounts.
macro_rules! typed {
    ($b:expr, $f:ident, $n:expr, $v:expr) => {
        match $v {
            "short" => $b.$f($n, Short([7; 4])),
            "long" => $b.$f($n, Long([7; 20])),
            v => $b.$f($n, Amount::from(num(v))),
        }
        .map_err(|e| format!("{e:?}"))
    };
}

macro_rules! named_state {
    ($b:expr, $x:expr, $det:expr, $seal:expr) => {{
        let (x, n, v, seal) = ($x, fname(text($x, "n")), text($x, "v"), $seal);
        match (text(x, "k"), $det) {
            ("rights", _) => $b.add_rights(n, seal),
            ("fungible", false) => $b.add_fungible_state(n, seal, num(v)),
            ("fungible", true) => $b.add_fungible_state_det(n, seal, num(v), blind(x)),
            ("data", false) => match v {
                "short" => $b.add_data(n, seal, Short([7; 4])),
                "long" => $b.add_data(n, seal, Long([7; 20])),
                v => $b.add_data(n, seal, Allocation::with(num(v) as u32, 1u64)),
            },
            ("data", true) => $b.add_data_det(n, seal, rdata(x)),
            ("attach", false) => $b.add_attachment(n, seal, attach(v)),
            _ => $b.add_attachment_det(n, seal, rattach(x)),
        }
        .map_err(|e| format!("{e:?}"))
    }};
}

fn call_contract(b: ContractBuilder, x: &Value, det: bool) -> Result<ContractBuilder, String> {
    let n = text(x, "n");
    let v = text(x, "v");
    let e = |e: rgbstd::interface::BuilderError| format!("{e:?}");
    match text(x, "c") {
        "meta" => typed!(b, add_metadata, fname(n), v),
        "global" => typed!(b, add_global_state, fname(n), v),
        "fn" => named_state!(b, x, det, GenesisSeal::seal(text(x, "seal"))),
        "own" => {
            let st = persisted(x, type_of(n), b.asset_tag(fname(n)).ok());
            b.add_owned_state_det(fname(n), GenesisSeal::seal(text(x, "seal")), st).map_err(e)
        }
        "tag" => b.add_asset_tag(fname(n), tag(type_of(n))).map_err(e),
        "liquid" => b.add_layer1(AltLayer1::Liquid).map_err(e),
        "mainnet" => Ok(b.set_mainnet()),
        c => panic!("call {c}"),
    }
}

fn input(x: &Value) -> Opout { Opout::new(OpId::from(h32(text(x, "n"))), any_type(text(x, "n")), num(text(x, "v")) as u16) }

fn call_transition(b: TransitionBuilder, x: &Value, det: bool) -> Result<TransitionBuilder, String> {
    let n = text(x, "n");
    let v = text(x, "v");
    let e = |e: rgbstd::interface::BuilderError| format!("{e:?}");
    let seal = || GraphSeal::seal(text(x, "seal"));
    match (text(x, "c"), text(x, "k")) {
        ("meta", _) => typed!(b, add_metadata, fname(n), v),
        ("global", _) => typed!(b, add_global_state, fname(n), v),
        ("fn", _) => named_state!(b, x, det, seal()),
        ("own", _) => b.add_owned_state_det(fname(n), seal(), persisted(x, type_of(n), None)).map_err(e),
        ("tag", _) if type_of(n) == n => unreachable!(),
        ("tag", _) => b.add_asset_tag(fname(n), tag(type_of(n))).map_err(e),
        ("nonce", _) => Ok(b.set_nonce(num(v))),
        ("input", _) => b.add_input(input(x), persisted(x, n, None)).map_err(e),
        ("rawany", _) => b.add_owned_state_raw(any_type(n), seal(), persisted(x, n, None)).map_err(e),
        ("raw", "fungible") => b.add_fungible_state_raw(any_type(n), seal(), num(v), blind(x)).map_err(e),
        ("raw", _) => b.add_data_raw(any_type(n), seal(), Allocation::with(num(v) as u32, 1u64), salt(x) as u64).map_err(e),
        ("default", "fungible") if det => b.add_fungible_default_state_det(seal(), num(v), blind(x)).map_err(e),
        ("default", "fungible") => b.add_fungible_default_state(seal(), num(v)).map_err(e),
        ("default", _) => b.add_data_default(seal(), Allocation::with(num(v) as u32, 1u64)).map_err(e),
        (c, _) => panic!("call {c}"),
    }
}

fn sorted(mut v: Vec<Value>) -> Value {
    v.sort_by_key(|x| x.to_string());
    json!(v)
}

/// Order matters only among the values of one global state.
fn normal(out: &Value) -> Value {
    let list = |v: &Value| v.as_array().cloned().unwrap_or_default();
    let mut o = out.clone();
    if o["ret"] == "ok" {
        for k in ["meta", "st", "tags", "ins"] {
            o[k] = sorted(list(&out[k]));
        }
        let mut g = list(&out["globals"]);
        g.sort_by_key(|x| x[0].to_string());
        o["globals"] = json!(g);
    }
    o
}

fn assigned<S: Seals>(a: &Assignments<S>) -> Vec<(AssignmentType, String, String, Value, Value)> {
    let mut res = vec![];
    for (ty, a) in a.iter() {
        macro_rules! each {
            ($list:expr, $k:expr, $val:expr) => {
                for x in $list {
                    let (val, raw) = $val(x.as_revealed_state().expect("revealed state"));
                    res.push((*ty, s($k), S::name(x.revealed_seal(), x.to_confidential_seal()), json!(val), json!(raw)));
                }
            };
        }
        match a {
            TypedAssigns::Declarative(l) => each!(l, "rights", |_: &VoidState| (s("1"), s(""))),
            TypedAssigns::Fungible(l) => {
                each!(l, "fungible", |v: &RevealedValue| (v.value.as_u64().to_string(), v.blinding.to_string()))
            }
            TypedAssigns::Structured(l) => each!(l, "data", |v: &RevealedData| {
                let n = data_name(&v.value);
                (if v.value == data_val(n) { n.to_string() } else { s("?") }, v.salt.to_string())
            }),
            TypedAssigns::Attachment(l) => each!(l, "attach", |v: &RevealedAttach| {
                let n = (0..9).find(|n| attach_id(*n) == v.file.id && v.file.media_type == MediaType::Any);
                (n.map(|n| n.to_string()).unwrap_or(s("?")), v.salt.to_string())
            }),
        }
    }
    res
}

/// Contents of the operation.
fn contents<S: Seals>(meta: &Metadata, globals: &GlobalState, a: &Assignments<S>, det: bool) -> Value {
    let meta = meta.iter().map(|(t, v)| {
        let n = METAS.iter().find(|(_, id)| MetaType::with(*id) == *t).map(|(n, _)| *n).unwrap_or("?");
        json!([n, global_name(&DataState::from(SmallBlob::try_from(v.to_vec()).unwrap())).to_string()])
    });
    let globals = globals.iter().flat_map(|(t, l)| l.iter().map(|v| json!([gname(*t), global_name(v).to_string()])));
    let list = assigned(a);
    if det {
        // blinding and salts are those given, except for the blinding which balances the others
        let mut odd: BTreeMap<AssignmentType, usize> = BTreeMap::new();
        for (ty, k, seal, v, raw) in &list {
            let x = json!({"seal": seal, "v": v});
            let ok = match k.as_str() {
                "fungible" => *raw == json!(blind(&x).to_string()),
                "data" => *raw == json!(salt(&x).to_string()),
                "attach" => *raw == json!((salt(&x) as u64).to_string()),
                _ => true,
            };
            if !ok {
                assert!(k == "fungible", "other salt");
                *odd.entry(*ty).or_default() += 1;
            }
        }
        assert!(odd.values().all(|n| *n == 1), "several blinding factors are changed");
    }
    let st = list.into_iter().map(|(t, k, seal, v, _)| json!([k, aty_name(t), seal, v]));
    json!({"meta": meta.collect::<Vec<_>>(), "globals": globals.collect::<Vec<_>>(), "st": st.collect::<Vec<_>>()})
}

fn issue(b: ContractBuilder, det: bool) -> Result<ValidContract, String> {
    match det {
        true => b.issue_contract_det(1_700_000_000),
        false => b.issue_contract(),
    }
    .map_err(|e| format!("{e:?}"))
}

fn contract(c: &Value, det: bool) -> Value {
    let prog = c["prog"].as_array().unwrap();
    let (schema, iface, iimpl) = setup().clone();
    let make = || {
        let ts = types().type_system();
        let issuer = Identity::from("issuer");
        let (s, f, i) = (schema.clone(), iface.clone(), iimpl.clone());
        let mut b = match det {
            true => ContractBuilder::deterministic(issuer, f, s, i, ts, Default::default()),
            false => ContractBuilder::with(issuer, f, s, i, ts, Default::default()),
        };
        let mut rets = vec![];
        for x in prog {
            match call_contract(b.clone(), x, det) {
                Ok(n) => {
                    rets.push("ok");
                    b = n;
                }
                Err(_) => rets.push("refused"),
            }
        }
        (b, rets)
    };
    let (b, rets) = make();
    let Ok(valid) = issue(b, det) else {
        return json!({"rets": rets, "ret": "refused"});
    };
    let g = &valid.genesis;
    assert_eq!((g.schema_id, g.issuer.to_string(), &valid.schema), (schema.schema_id(), s("issuer"), &schema), "other schema or issuer");
    assert_eq!(valid.ifaces.get(&iface), Some(&iimpl), "other interface");
    assert!(g.valencies.is_empty() && valid.bundles.is_empty() && valid.terminals.is_empty(), "more in the contract");
    if det {
        assert_eq!(g.timestamp, 1_700_000_000, "other time");
    } else {
        assert!((g.timestamp - chrono::Utc::now().timestamp()).abs() < 60, "other time");
    }
    let mut res = contents(&g.metadata, &g.globals, &g.assignments, det);
    let tags: Vec<_> =
        g.asset_tags.iter().map(|(t, x)| json!([aty_name(*t), if *x == asset_tag("B", *t) { "given" } else { "auto" }])).collect();
    if det && tags.iter().all(|t| t[1] == "given") {
        let again = issue(make().0, det).expect("issued again");
        assert_eq!(again.genesis, valid.genesis, "issued differently again");
    }
    for (ty, a) in g.assignments.iter() {
        let tag = g.asset_tags.get(ty);
        assert!(a.as_fungible().iter().all(|a| Some(&a.as_revealed_state().unwrap().tag) == tag), "other asset tag");
    }
    res["rets"] = json!(rets);
    res["ret"] = json!("ok");
    res["tags"] = json!(tags);
    res["liquid"] = json!(g.alt_layers1.contains(&AltLayer1::Liquid));
    res["main"] = json!(!g.testnet);
    res["nonce"] = json!("max");
    res["ins"] = json!([]);
    res
}

fn transition(c: &Value, kind: &str, det: bool) -> Value {
    let prog = c["prog"].as_array().unwrap();
    let (schema, iface, iimpl) = setup().clone();
    let id = ContractId::from(h32("contract"));
    let make = || {
        let ts = types().type_system();
        let (s, f, i) = (schema.clone(), iface.clone(), iimpl.clone());
        let b = match (kind, det) {
            ("blank", true) => Ok(TransitionBuilder::blank_transition_det(id, f, s, i, ts)),
            ("blank", false) => Ok(TransitionBuilder::blank_transition(id, f, s, i, ts)),
            ("default", true) => TransitionBuilder::default_transition_det(id, f, s, i, ts),
            ("default", false) => TransitionBuilder::default_transition(id, f, s, i, ts),
            (n, true) => TransitionBuilder::named_transition_det(id, f, s, i, fname(n), ts),
            (n, false) => TransitionBuilder::named_transition(id, f, s, i, fname(n), ts),
        };
        let mut rets = vec![];
        let Ok(mut b) = b else { return Err(()) };
        for x in prog {
            match call_transition(b.clone(), x, det) {
                Ok(n) => {
                    rets.push("ok");
                    b = n;
                }
                Err(_) => rets.push("refused"),
            }
        }
        Ok((b, rets))
    };
    let Ok((b, rets)) = make() else {
        return json!({"rets": [], "ret": "refused"});
    };
    let tags: Vec<_> = ["aa", "ff"]
        .into_iter()
        .filter_map(|n| {
            let x = b.asset_tag(fname(n)).ok()?;
            Some(json!([type_of(n), if x == tag(type_of(n)) { "given" } else { "auto" }]))
        })
        .collect();
    let has_inputs = b.has_inputs();
    let Ok(t) = b.complete_transition() else {
        return json!({"rets": rets, "ret": "refused"});
    };
    if det {
        let again = make().unwrap().0.complete_transition().expect("completed again");
        assert_eq!((again.id(), &again), (t.id(), &t), "completed differently again");
    }
    let ty = match kind {
        "blank" => TransitionType::BLANK,
        "other" => TransitionType::with(10001),
        _ => TransitionType::with(10000),
    };
    assert_eq!((t.transition_type, t.contract_id), (ty, id), "other operation or contract");
    assert!(t.valencies.is_empty(), "more in the transition");
    assert_eq!(has_inputs, !t.inputs.is_empty(), "inputs are reported wrong");
    let mut res = contents(&t.metadata, &t.globals, &t.assignments, det);
    let known: Vec<_> = prog.iter().filter(|x| x["c"] == "input").collect();
    let ins = t.inputs.iter().map(|i| {
        let x = known.iter().find(|x| input(x) == i.prev_out);
        x.map(|x| json!([x["n"], x["v"]])).unwrap_or_else(|| json!(i.prev_out.to_string()))
    });
    // commitments balance where the amounts do
    for ty in ["A", "F"] {
        let ins: Vec<RevealedValue> = t
            .inputs
            .iter()
            .filter(|i| i.prev_out.ty == aty(ty))
            .filter_map(|i| known.iter().find(|x| input(x) == i.prev_out && x["k"] == "fungible"))
            .map(|x| value(x, ty))
            .collect();
        let outs: Vec<RevealedValue> =
            t.assignments.get(&aty(ty)).map(|a| a.as_fungible().iter().map(|a| *a.as_revealed_state().unwrap()).collect()).unwrap_or_default();
        assert!(outs.iter().all(|v| v.tag == tag(ty)), "other asset tag");
        let sum = |l: &[RevealedValue]| l.iter().map(|v| v.value.as_u64()).sum::<u64>();
        let commit = |l: &[RevealedValue]| l.iter().map(|v| PedersenCommitment::commit(v).into_inner()).collect::<Vec<_>>();
        if !ins.is_empty() && sum(&ins) == sum(&outs) {
            let ok = secp256k1_zkp::verify_commitments_sum_to_equal(SECP256K1, &commit(&ins), &commit(&outs));
            assert!(ok, "commitments do not balance");
        }
    }
    res["ins"] = json!(ins.collect::<Vec<_>>());
    res["rets"] = json!(rets);
    res["ret"] = json!("ok");
    res["tags"] = json!(tags);
    res["liquid"] = json!(false);
    res["main"] = json!(false);
    res["nonce"] = json!(if t.nonce == u64::MAX { s("max") } else { t.nonce.to_string() });
    res
}

pub fn call(c: &Value) -> (Value, Value) {
    let mut case = c.clone();
    case["out"] = json!(c["out"].as_array().unwrap().iter().map(normal).collect::<Vec<_>>());
    let det = c["b"]["det"].as_bool().unwrap();
    let got = match text(&c["b"], "kind") {
        "contract" => contract(c, det),
        k => transition(c, k, det),
    };
    (normal(&got), case)
}
