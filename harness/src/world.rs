//! Concrete worlds: abstract JSON descriptions (shared with the TLA+ specification) are turned into
//! real RGB data structures made with consensus-level constructors only, i.e. without using the
//! code under test (builders, compose, merge) to produce the inputs of the checks.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use amplify::confinement::{Confined, SmallBlob, SmallOrdMap, SmallVec, TinyOrdMap};
use amplify::num::u24;
use bp::dbc::opret::OpretProof;
use bp::dbc::tapret::{TapretPathProof, TapretProof};
use bp::dbc::{Anchor, Method};
use bp::seals::txout::{BlindSeal, TxPtr};
use bp::{
    InternalPk, LockTime, Outpoint, Sats, ScriptPubkey, SeqNo, SigScript, Tx, TxIn, TxOut, TxVer,
    Txid, Vout, Witness as BpWitness,
};
use commit_verify::mpc::{self, MerkleBlock, MerkleTree, MultiSource};
use commit_verify::{
    CommitId, Conceal, ConvolveCommit, Digest, EmbedCommitVerify, Sha256, TryCommitVerify,
};
use rgbstd::containers::{
    AnchorSet, BundleDichotomy, ClientBundle, Consignment, ContainerVer, Dichotomy, Fascia,
    PubWitness, SealWitness, WitnessBundle, XPubWitness,
};
use rgbstd::interface::{
    ArgMap, AssignIface, GenesisIface, GlobalIface, Iface, IfaceImpl, Modifier, NamedField,
    OwnedIface, TransitionIface, ValencyIface,
};
use rgbstd::persistence::Stock;
use rgbstd::stl::StandardTypes;
use rgbstd::validation::{DbcProof, ResolveWitness, WitnessResolverError};
use rgbstd::vm::{WitnessOrd, WitnessPos, XWitnessTx};
use rgbstd::*;
use serde::{Deserialize, Serialize};
use strict_encoding::{fname, tn};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SAssign {
    pub ty: String,
    pub tx: String,
    pub vout: u32,
    pub m: String,
    #[serde(default)]
    pub val: u64,
    #[serde(default)]
    pub blind: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SGlobal {
    pub ty: String,
    pub val: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SOp {
    pub contract: String,
    pub kind: String,
    #[serde(default)]
    pub tt: u16,
    #[serde(default)]
    pub nonce: Option<u64>,
    #[serde(default)]
    pub inputs: Vec<String>,
    #[serde(default)]
    pub assigns: Vec<SAssign>,
    #[serde(default)]
    pub globals: Vec<SGlobal>,
    #[serde(default)]
    pub redeems: Option<String>,
    #[serde(default)]
    pub valency: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SBundle {
    pub contract: String,
    pub m: String,
    pub ops: Vec<String>,
    pub map: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SWitness {
    pub inputs: Vec<String>,
    pub bundles: Vec<String>,
    #[serde(default)]
    pub salt: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SContract {
    pub genesis: String,
    #[serde(default)]
    pub schema: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SWorld {
    pub order: Vec<String>,
    pub funding: Vec<String>,
    pub contracts: BTreeMap<String, SContract>,
    pub ops: BTreeMap<String, SOp>,
    pub bundles: BTreeMap<String, SBundle>,
    pub witnesses: BTreeMap<String, SWitness>,
}

pub const TY: [(&str, u16); 5] = [("A", 4000), ("F", 4001), ("D", 4010), ("R", 4020), ("X", 4030)];
pub const GTY: [(&str, u16); 3] = [("G1", 2000), ("G3", 2003), ("GN", 2009)];
pub const VALENCY: u16 = 3000;
pub const EXT: u16 = 9000;

pub fn aty(s: &str) -> AssignmentType {
    AssignmentType::with(TY.iter().find(|(n, _)| *n == s).unwrap_or_else(|| panic!("type {s}")).1)
}
pub fn aty_name(t: AssignmentType) -> String {
    TY.iter()
        .find(|(_, n)| AssignmentType::with(*n) == t)
        .map(|(n, _)| n.to_string())
        .unwrap_or_else(|| format!("?{t}"))
}
pub fn gty(s: &str) -> GlobalStateType {
    GlobalStateType::with(GTY.iter().find(|(n, _)| *n == s).unwrap().1)
}

pub fn h32(tag: &str) -> [u8; 32] {
    let mut e = Sha256::new();
    e.update(tag.as_bytes());
    e.finalize().into()
}
pub fn h64(tag: &str) -> u64 { u64::from_le_bytes(h32(tag)[..8].try_into().unwrap()) }

pub fn method(m: &str) -> Method {
    match m {
        "T" => Method::TapretFirst,
        "O" => Method::OpretFirst,
        _ => panic!("method {m}"),
    }
}
pub fn method_name(m: Method) -> &'static str {
    match m {
        Method::TapretFirst => "T",
        Method::OpretFirst => "O",
    }
}

pub fn types() -> &'static StandardTypes {
    static T: OnceLock<StandardTypes> = OnceLock::new();
    T.get_or_init(StandardTypes::new)
}

pub fn schema_no(no: u8) -> Schema {
    let t = types();
    let amount = t.get("RGBContract.Amount");
    let alloc = t.get("RGBContract.Allocation");
    let mut owned_types = TinyOrdMap::new();
    for (n, id) in TY {
        let s = match n {
            "A" | "F" => OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit),
            "D" => OwnedStateSchema::Structured(alloc),
            "R" => OwnedStateSchema::Declarative,
            _ => OwnedStateSchema::Attachment(MediaType::Any),
        };
        owned_types.insert(AssignmentType::with(id), s).unwrap();
    }
    let mut global_types = TinyOrdMap::new();
    for (n, id) in GTY {
        let s = match n {
            "G1" => GlobalStateSchema::once(amount),
            "G3" => GlobalStateSchema {
                reserved: default(),
                sem_id: amount,
                max_items: u24::with(3),
            },
            _ => GlobalStateSchema::many(amount),
        };
        global_types.insert(GlobalStateType::with(id), s).unwrap();
    }
    let all_g: TinyOrdMap<GlobalStateType, Occurrences> = Confined::try_from_iter(
        GTY.iter().map(|(_, id)| (GlobalStateType::with(*id), Occurrences::NoneOrMore)),
    )
    .unwrap();
    let all_a: TinyOrdMap<AssignmentType, Occurrences> = Confined::try_from_iter(
        TY.iter().map(|(_, id)| (AssignmentType::with(*id), Occurrences::NoneOrMore)),
    )
    .unwrap();
    let vals = Confined::try_from_iter([ValencyType::with(VALENCY)]).unwrap();
    let tr = TransitionSchema {
        metadata: default(),
        globals: all_g.clone(),
        inputs: all_a.clone(),
        assignments: all_a.clone(),
        valencies: Confined::try_from_iter([ValencyType::with(VALENCY)]).unwrap(),
        validator: None,
    };
    Schema {
        ffv: default(),
        flags: default(),
        name: if no == 0 { tn!("VerifSchema") } else { tn!("OtherSchema") },
        timestamp: 1713261744 + no as i64,
        developer: Identity::default(),
        meta_types: default(),
        global_types,
        owned_types,
        valency_types: Confined::try_from_iter([ValencyType::with(VALENCY)]).unwrap(),
        genesis: GenesisSchema {
            metadata: default(),
            globals: all_g.clone(),
            assignments: all_a.clone(),
            valencies: vals,
            validator: None,
        },
        extensions: Confined::try_from_iter([(ExtensionType::with(EXT), ExtensionSchema {
            metadata: default(),
            globals: all_g,
            redeems: Confined::try_from_iter([ValencyType::with(VALENCY)]).unwrap(),
            assignments: all_a,
            valencies: default(),
            validator: None,
        })])
        .unwrap(),
        transitions: Confined::try_from_iter([
            (TransitionType::with(10000), tr.clone()),
            (TransitionType::with(10001), tr),
        ])
        .unwrap(),
        reserved: default(),
    }
}

fn default<T: Default>() -> T { T::default() }

fn argmap(names: &[&'static str]) -> ArgMap {
    Confined::try_from_iter(
        names
            .iter()
            .map(|n| (FieldName::try_from(n.to_string()).unwrap(), Occurrences::NoneOrMore)),
    )
    .unwrap()
}
use strict_encoding::FieldName;

pub const ANAMES: [(&str, &str); 5] =
    [("A", "aa"), ("F", "ff"), ("D", "dd"), ("R", "rr"), ("X", "xx")];
pub const GNAMES: [(&str, &str); 3] = [("G1", "gone"), ("G3", "gthree"), ("GN", "gmany")];
pub const TNAMES: [(&str, u16); 2] = [("move", 10000), ("other", 10001)];

/// An interface covering the whole schema.
pub fn iface() -> Iface {
    static I: OnceLock<Iface> = OnceLock::new();
    I.get_or_init(make_iface).clone()
}
fn make_iface() -> Iface {
    let t = types();
    let amount = t.get("RGBContract.Amount");
    let alloc = t.get("RGBContract.Allocation");
    let an: Vec<&'static str> = ANAMES.iter().map(|(_, n)| *n).collect();
    let gn: Vec<&'static str> = GNAMES.iter().map(|(_, n)| *n).collect();
    let tr = TransitionIface {
        modifier: Modifier::Final,
        optional: false,
        metadata: default(),
        globals: argmap(&gn),
        inputs: argmap(&an),
        assignments: argmap(&an),
        valencies: Confined::try_from_iter([fname!("val")]).unwrap(),
        errors: default(),
        default_assignment: None,
    };
    let mv = TransitionIface { default_assignment: Some(fname!("ff")), ..tr.clone() };
    Iface {
        version: rgbstd::interface::VerNo::V1,
        name: tn!("VerifIface"),
        inherits: default(),
        timestamp: 1711405444,
        metadata: default(),
        global_state: Confined::try_from_iter(GNAMES.iter().map(|(k, n)| {
            (FieldName::try_from(n.to_string()).unwrap(), GlobalIface {
                sem_id: Some(amount),
                required: false,
                multiple: *k != "G1",
            })
        }))
        .unwrap(),
        assignments: Confined::try_from_iter(ANAMES.iter().map(|(k, n)| {
            (FieldName::try_from(n.to_string()).unwrap(), AssignIface {
                owned_state: match *k {
                    "A" | "F" => OwnedIface::Amount,
                    "D" => OwnedIface::Data(alloc),
                    "R" => OwnedIface::Rights,
                    _ => OwnedIface::AnyAttach,
                },
                public: false,
                required: false,
                multiple: true,
            })
        }))
        .unwrap(),
        valencies: Confined::try_from_iter([(fname!("val"), ValencyIface { required: false })])
            .unwrap(),
        genesis: GenesisIface {
            modifier: Modifier::Final,
            metadata: default(),
            globals: argmap(&gn),
            assignments: argmap(&an),
            valencies: Confined::try_from_iter([fname!("val")]).unwrap(),
            errors: default(),
        },
        transitions: Confined::try_from_iter([(fname!("move"), mv), (fname!("other"), tr)])
            .unwrap(),
        extensions: default(),
        default_operation: Some(fname!("move")),
        errors: default(),
        developer: Identity::default(),
    }
}

pub fn iimpl(schema_id: SchemaId) -> IfaceImpl {
    IfaceImpl {
        version: rgbstd::interface::VerNo::V1,
        schema_id,
        iface_id: iface().iface_id(),
        timestamp: 1713261744,
        metadata: default(),
        global_state: Confined::try_from_iter(
            GNAMES
                .iter()
                .map(|(k, n)| NamedField::with(gty(k), FieldName::try_from(n.to_string()).unwrap())),
        )
        .unwrap(),
        assignments: Confined::try_from_iter(
            ANAMES
                .iter()
                .map(|(k, n)| NamedField::with(aty(k), FieldName::try_from(n.to_string()).unwrap())),
        )
        .unwrap(),
        valencies: Confined::try_from_iter([NamedField::with(
            ValencyType::with(VALENCY),
            fname!("val"),
        )])
        .unwrap(),
        transitions: Confined::try_from_iter(TNAMES.iter().map(|(n, t)| {
            NamedField::with(TransitionType::with(*t), FieldName::try_from(n.to_string()).unwrap())
        }))
        .unwrap(),
        extensions: default(),
        errors: default(),
        developer: Identity::default(),
    }
}

/// Reveal level of a single assignment.
pub fn level<S: ExposedState, L: ExposedSeal>(a: &Assign<S, L>) -> &'static str {
    match a {
        Assign::Revealed { .. } => "R",
        Assign::Confidential { .. } => "C",
        Assign::ConfidentialSeal { .. } => "S",
        Assign::ConfidentialState { .. } => "V",
    }
}

fn at_level<S: ExposedState, L: ExposedSeal>(a: &Assign<S, L>, l: &str) -> Assign<S, L> {
    let (seal, state) = a.to_revealed().expect("master assignments are revealed");
    let lock = default();
    match l {
        "R" => Assign::Revealed { seal, state, lock },
        "C" => Assign::Confidential {
            seal: seal.conceal(),
            state: state.conceal(),
            lock,
        },
        "S" => Assign::ConfidentialSeal {
            seal: seal.conceal(),
            state,
            lock,
        },
        "V" => Assign::ConfidentialState {
            seal,
            state: state.conceal(),
            lock,
        },
        _ => panic!("level {l}"),
    }
}

pub fn conceal_assigns<L: ExposedSeal>(
    a: &Assignments<L>,
    f: &impl Fn(AssignmentType, u16) -> String,
) -> Assignments<L> {
    let mut out = Assignments::<L>::default();
    for (ty, t) in a.iter() {
        macro_rules! go {
            ($v:expr, $k:ident) => {
                TypedAssigns::$k(
                    SmallVec::try_from_iter(
                        $v.iter().enumerate().map(|(i, x)| at_level(x, &f(*ty, i as u16))),
                    )
                    .unwrap(),
                )
            };
        }
        let n = match t {
            TypedAssigns::Declarative(v) => go!(v, Declarative),
            TypedAssigns::Fungible(v) => go!(v, Fungible),
            TypedAssigns::Structured(v) => go!(v, Structured),
            TypedAssigns::Attachment(v) => go!(v, Attachment),
        };
        out.insert(*ty, n).unwrap();
    }
    out
}

/// Reveal levels of assignments by `(type, no)`.
pub fn levels<L: ExposedSeal>(a: &Assignments<L>) -> BTreeMap<(AssignmentType, u16), String> {
    let mut out = BTreeMap::new();
    for (ty, t) in a.iter() {
        let v: Vec<&'static str> = match t {
            TypedAssigns::Declarative(v) => v.iter().map(level).collect(),
            TypedAssigns::Fungible(v) => v.iter().map(level).collect(),
            TypedAssigns::Structured(v) => v.iter().map(level).collect(),
            TypedAssigns::Attachment(v) => v.iter().map(level).collect(),
        };
        for (i, l) in v.into_iter().enumerate() {
            out.insert((*ty, i as u16), l.to_string());
        }
    }
    out
}

pub fn data_val(v: u64) -> DataState {
    let mut b = Vec::new();
    b.extend_from_slice(&(v as u32).to_le_bytes());
    b.extend_from_slice(&1u64.to_le_bytes());
    DataState::from(SmallBlob::try_from(b).unwrap())
}
pub fn data_name(d: &DataState) -> u64 {
    let b: &[u8] = d.as_ref();
    u32::from_le_bytes(b[..4].try_into().unwrap()) as u64
}
pub fn global_val(v: u64) -> DataState {
    DataState::from(SmallBlob::try_from(v.to_le_bytes().to_vec()).unwrap())
}
pub fn global_name(d: &DataState) -> u64 {
    let b: &[u8] = d.as_ref();
    u64::from_le_bytes(b[..8].try_into().unwrap())
}
pub fn attach_id(v: u64) -> AttachId { AttachId::from(h32(&format!("attach{v}"))) }

pub fn asset_tag(c: &str, ty: AssignmentType) -> AssetTag {
    AssetTag::from(h32(&format!("tag/{c}/{ty}")))
}
pub fn blinding(tag: &str) -> BlindingFactor {
    let mut b = h32(tag);
    b[0] = 1;
    BlindingFactor::try_from(b).unwrap()
}

#[derive(Clone, Debug)]
pub enum Op {
    Genesis(Genesis),
    Extension(Extension),
    Transition(Transition),
}

impl Op {
    pub fn id(&self) -> OpId {
        match self {
            Op::Genesis(o) => o.id(),
            Op::Extension(o) => o.id(),
            Op::Transition(o) => o.id(),
        }
    }
    pub fn transition(&self) -> &Transition {
        match self {
            Op::Transition(t) => t,
            _ => panic!("not a transition"),
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub spec: SWorld,
    pub schema: BTreeMap<u8, Schema>,
    pub ops: BTreeMap<String, Op>,
    pub opids: BTreeMap<OpId, String>,
    pub contracts: BTreeMap<String, ContractId>,
    pub cnames: BTreeMap<ContractId, String>,
    pub bundles: BTreeMap<String, TransitionBundle>,
    pub bids: BTreeMap<BundleId, String>,
    pub txs: BTreeMap<String, Tx>,
    pub txids: BTreeMap<String, Txid>,
    pub txnames: BTreeMap<Txid, String>,
    pub tapret: BTreeMap<String, (MerkleBlock, TapretProof)>,
    pub opret: BTreeMap<String, (MerkleBlock, OpretProof)>,
    /// Seal id -> seal
    pub seals: BTreeMap<String, XChain<GraphSeal>>,
    pub secrets: BTreeMap<XChain<SecretSeal>, String>,
    pub concealed: BTreeMap<String, XChain<SecretSeal>>,
    /// Values of attachment names
    pub attaches: BTreeMap<AttachId, u64>,
}

pub const PK: &str = "c5f93479093e2b8f724a79844cc10928dd44e9a390b539843fb83fbf842723f3";

pub fn seal_name(a: &SAssign, op: &str, no: u16) -> String {
    match a.blind {
        Some(b) => format!("{}:{}:{}#{}", a.m, a.tx, a.vout, b),
        None => format!("{}:{}:{}#{}/{}/{}", a.m, a.tx, a.vout, op, a.ty, no),
    }
}

fn seal_blind(a: &SAssign, op: &str, no: u16) -> u64 {
    match a.blind {
        Some(b) => b,
        None => h64(&format!("blind/{op}/{}/{no}", a.ty)),
    }
}

pub fn parse_outpoint(s: &str) -> (String, u32) {
    let (t, v) = s.split_once(':').unwrap();
    (t.to_string(), v.parse().unwrap())
}

pub fn dummy_script(n: u32) -> ScriptPubkey {
    let mut v = vec![0x00u8, 0x14];
    v.extend_from_slice(&h32(&format!("out{n}"))[..20]);
    ScriptPubkey::from_unsafe(v)
}

pub fn internal_pk() -> InternalPk {
    use amplify::hex::FromHex;
    InternalPk::from_byte_array(<[u8; 32]>::from_hex(PK).unwrap()).unwrap()
}

pub const N_OUTS: u32 = 8;

pub fn witness_tx_skeleton(inputs: &[Outpoint], salt: u32, tapret: bool, opret: bool) -> Tx {
    let ins = inputs.iter().map(|o| TxIn {
        prev_output: *o,
        sig_script: SigScript::empty(),
        sequence: SeqNo::from_consensus_u32(0xffff_fffd),
        witness: BpWitness::default(),
    });
    let mut outs = vec![];
    for v in 0..N_OUTS {
        let script = if v == 0 && opret {
            ScriptPubkey::op_return(&[])
        } else if v == 1 && tapret {
            ScriptPubkey::p2tr_key_only(internal_pk())
        } else {
            dummy_script(v)
        };
        outs.push(TxOut::new(script, Sats::from(if v == 0 && opret { 0u64 } else { 1000 })));
    }
    Tx {
        version: TxVer::V2,
        inputs: Confined::try_from_iter(ins).unwrap(),
        outputs: Confined::try_from_iter(outs).unwrap(),
        lock_time: LockTime::from_consensus_u32(salt),
    }
}

pub fn mpc_commit(msgs: &BTreeMap<ContractId, BundleId>) -> (MerkleBlock, mpc::Commitment) {
    let mut src = MultiSource::with_static_entropy(7);
    for (c, b) in msgs {
        src.messages.insert((*c).into(), (*b).into()).unwrap();
    }
    let tree = MerkleTree::try_commit(&src).unwrap();
    (MerkleBlock::from(&tree), tree.commit_id())
}

pub fn commit_opret(tx: &mut Tx, c: &mpc::Commitment) -> OpretProof {
    // OP_RETURN with no pushes
    for o in tx.outputs.iter_mut() {
        if o.script_pubkey.is_op_return() {
            o.script_pubkey = ScriptPubkey::from_unsafe(vec![0x6a]);
        }
    }
    tx.embed_commit(c).expect("opret commitment")
}

pub fn commit_tapret(tx: &mut Tx, c: &mpc::Commitment) -> TapretProof {
    let (t, proof) = tx
        .convolve_commit(
            &TapretProof {
                path_proof: TapretPathProof::root(0),
                internal_pk: internal_pk(),
            },
            c,
        )
        .expect("tapret commitment");
    *tx = t;
    proof
}

impl World {
    pub fn build(spec: SWorld) -> World {
        let mut w = World {
            spec: spec.clone(),
            schema: [(0, schema_no(0)), (1, schema_no(1))].into_iter().collect(),
            ops: default(),
            opids: default(),
            contracts: default(),
            cnames: default(),
            bundles: default(),
            bids: default(),
            txs: default(),
            txids: default(),
            txnames: default(),
            tapret: default(),
            opret: default(),
            seals: default(),
            secrets: default(),
            concealed: default(),
            attaches: default(),
        };
        for f in &spec.funding {
            let txid = Txid::from(h32(&format!("funding/{f}")));
            w.txids.insert(f.clone(), txid);
            w.txnames.insert(txid, f.clone());
        }
        for name in &spec.order {
            if let Some(op) = spec.ops.get(name) {
                w.build_op(name, op);
            } else if let Some(b) = spec.bundles.get(name) {
                w.build_bundle(name, b);
            } else if let Some(x) = spec.witnesses.get(name) {
                w.build_witness(name, x);
            } else {
                panic!("unknown item {name}");
            }
        }
        w
    }

    fn gseal(&self, a: &SAssign, op: &str, no: u16) -> GenesisSeal {
        BlindSeal::with_blinding(
            method(&a.m),
            self.txids[&a.tx],
            Vout::from_u32(a.vout),
            seal_blind(a, op, no),
        )
    }
    pub fn tseal(&self, a: &SAssign, op: &str, no: u16) -> GraphSeal {
        let ptr = if a.tx == "@" { TxPtr::WitnessTx } else { TxPtr::Txid(self.txids[&a.tx]) };
        BlindSeal::with_blinding(method(&a.m), ptr, Vout::from_u32(a.vout), seal_blind(a, op, no))
    }

    fn assigns<L: ExposedSeal>(
        &mut self,
        c: &str,
        op: &str,
        list: &[SAssign],
        mk: impl Fn(&World, &SAssign, &str, u16) -> L,
        graph: impl Fn(L) -> GraphSeal,
    ) -> Assignments<L> {
        let mut out = Assignments::<L>::default();
        let mut counts: BTreeMap<String, u16> = default();
        for a in list {
            let no = *counts.entry(a.ty.clone()).and_modify(|n| *n += 1).or_insert(0);
            let ty = aty(&a.ty);
            let s = mk(self, a, op, no);
            let name = seal_name(a, op, no);
            let seal = XChain::Bitcoin(s);
            self.seals.insert(name.clone(), XChain::Bitcoin(graph(s)));
            self.concealed.insert(name.clone(), seal.conceal());
            self.secrets.insert(seal.conceal(), name);
            let salt = format!("salt/{op}/{}/{no}", a.ty);
            macro_rules! push {
                ($k:ident, $st:expr) => {{
                    let asg = Assign::revealed(seal, $st);
                    match out.get_mut(&ty) {
                        Some(TypedAssigns::$k(v)) => v.push(asg).unwrap(),
                        _ => {
                            out.insert(
                                ty,
                                TypedAssigns::$k(SmallVec::try_from_iter([asg]).unwrap()),
                            )
                            .unwrap();
                        }
                    }
                }};
            }
            match a.ty.as_str() {
                "A" | "F" => push!(
                    Fungible,
                    RevealedValue::with_blinding(a.val, blinding(&salt), asset_tag(c, ty))
                ),
                "D" => push!(
                    Structured,
                    RevealedData::with_salt(data_val(a.val), h64(&salt) as u128)
                ),
                "R" => push!(Declarative, VoidState::default()),
                _ => {
                    self.attaches.insert(attach_id(a.val), a.val);
                    push!(
                        Attachment,
                        RevealedAttach::with_salt(attach_id(a.val), MediaType::Any, h64(&salt))
                    )
                }
            }
        }
        out
    }

    fn globals(list: &[SGlobal]) -> GlobalState {
        let mut g = GlobalState::default();
        for x in list {
            g.add_state(gty(&x.ty), global_val(x.val)).unwrap();
        }
        g
    }

    fn build_op(&mut self, name: &str, op: &SOp) {
        let valencies = if op.valency {
            Valencies::from(Confined::try_from_iter([ValencyType::with(VALENCY)]).unwrap())
        } else {
            default()
        };
        let c = &op.contract;
        let o = match op.kind.as_str() {
            "genesis" => {
                let sc = self.schema[&self.spec.contracts[c].schema].clone();
                let mut tags: TinyOrdMap<AssignmentType, AssetTag> = default();
                for t in ["A", "F"] {
                    tags.insert(aty(t), asset_tag(c, aty(t))).unwrap();
                }
                let assignments =
                    self.assigns(c, name, &op.assigns, |w, a, o, n| w.gseal(a, o, n), |s| {
                        s.transmutate()
                    });
                let g = Genesis {
                    ffv: default(),
                    schema_id: sc.schema_id(),
                    flags: default(),
                    timestamp: 1713261744 + (h64(c) % 1000) as i64,
                    issuer: Identity::default(),
                    testnet: true,
                    alt_layers1: default(),
                    asset_tags: AssetTags::from(tags),
                    metadata: default(),
                    globals: Self::globals(&op.globals),
                    assignments,
                    valencies,
                    validator: default(),
                };
                let id = g.contract_id();
                self.contracts.insert(c.clone(), id);
                self.cnames.insert(id, c.clone());
                Op::Genesis(g)
            }
            "extension" => {
                let assignments =
                    self.assigns(c, name, &op.assigns, |w, a, o, n| w.gseal(a, o, n), |s| {
                        s.transmutate()
                    });
                let mut redeemed: TinyOrdMap<ValencyType, OpId> = default();
                let r = op.redeems.clone().expect("extension redeems");
                redeemed.insert(ValencyType::with(VALENCY), self.ops[&r].id()).unwrap();
                Op::Extension(Extension {
                    ffv: default(),
                    contract_id: self.contracts[c],
                    nonce: op.nonce.unwrap_or(u64::MAX),
                    extension_type: ExtensionType::with(EXT),
                    metadata: default(),
                    globals: Self::globals(&op.globals),
                    assignments,
                    redeemed: Redeemed::from(redeemed),
                    valencies,
                    validator: default(),
                    witness: default(),
                })
            }
            "transition" => {
                let assignments =
                    self.assigns(c, name, &op.assigns, |w, a, o, n| w.tseal(a, o, n), |s| s);
                Op::Transition(Transition {
                    ffv: default(),
                    contract_id: self.contracts[c],
                    nonce: op.nonce.unwrap_or(u64::MAX),
                    transition_type: if op.tt == u16::MAX {
                        TransitionType::BLANK
                    } else {
                        TransitionType::with(if op.tt == 0 { 10000 } else { op.tt })
                    },
                    metadata: default(),
                    globals: Self::globals(&op.globals),
                    inputs: Inputs::from(
                        Confined::try_from_iter(
                            op.inputs.iter().map(|s| Input::with(self.opout(s))),
                        )
                        .unwrap(),
                    ),
                    assignments,
                    valencies,
                    validator: default(),
                    witness: default(),
                })
            }
            k => panic!("kind {k}"),
        };
        self.opids.insert(o.id(), name.to_string());
        self.ops.insert(name.to_string(), o);
    }

    pub fn opout(&self, s: &str) -> Opout {
        let p: Vec<&str> = s.split('/').collect();
        Opout::new(self.ops[p[0]].id(), aty(p[1]), p[2].parse().unwrap())
    }
    pub fn opname(&self, id: OpId) -> String {
        self.opids.get(&id).cloned().unwrap_or_else(|| format!("?{id}"))
    }
    pub fn opout_name(&self, o: Opout) -> String {
        format!("{}/{}/{}", self.opname(o.op), aty_name(o.ty), o.no)
    }

    fn build_bundle(&mut self, name: &str, b: &SBundle) {
        let mut it = b.map.iter();
        let (v, o) = it.next().expect("empty bundle input map");
        let mut im = InputMap::with(Vin::from(v.parse::<u32>().unwrap()), self.ops[o].id());
        for (v, o) in it {
            im.insert(Vin::from(v.parse::<u32>().unwrap()), self.ops[o].id()).unwrap();
        }
        let known = b.ops.iter().map(|o| (self.ops[o].id(), self.ops[o].transition().clone()));
        let tb = TransitionBundle {
            close_method: method(&b.m),
            input_map: im,
            known_transitions: Confined::try_from_iter(known).unwrap(),
        };
        self.bids.insert(tb.bundle_id(), name.to_string());
        self.bundles.insert(name.to_string(), tb);
    }

    fn build_witness(&mut self, name: &str, x: &SWitness) {
        let inputs: Vec<Outpoint> = x
            .inputs
            .iter()
            .map(|s| {
                let (t, v) = parse_outpoint(s);
                Outpoint::new(self.txids[&t], Vout::from_u32(v))
            })
            .collect();
        let mut msgs: BTreeMap<&str, BTreeMap<ContractId, BundleId>> = default();
        for b in &x.bundles {
            let sb = &self.spec.bundles[b];
            let prev = msgs
                .entry(if sb.m == "T" { "T" } else { "O" })
                .or_default()
                .insert(self.contracts[&sb.contract], self.bundles[b].bundle_id());
            assert!(prev.is_none(), "two bundles of a contract with the same method in {name}");
        }
        let mut tx = witness_tx_skeleton(
            &inputs,
            x.salt,
            msgs.contains_key("T"),
            msgs.contains_key("O"),
        );
        if let Some(m) = msgs.get("T") {
            let (block, c) = mpc_commit(m);
            let proof = commit_tapret(&mut tx, &c);
            self.tapret.insert(name.to_string(), (block, proof));
        }
        if let Some(m) = msgs.get("O") {
            let (block, c) = mpc_commit(m);
            let proof = commit_opret(&mut tx, &c);
            self.opret.insert(name.to_string(), (block, proof));
        }
        self.txids.insert(name.to_string(), tx.txid());
        self.txnames.insert(tx.txid(), name.to_string());
        self.txs.insert(name.to_string(), tx);
    }

    // ------------------------------------------------------------------ views

    pub fn wid(&self, w: &str) -> XWitnessId { XWitnessId::Bitcoin(self.txids[w]) }
    pub fn wname(&self, w: XWitnessId) -> String {
        match w {
            XChain::Bitcoin(id) => {
                self.txnames.get(&id).cloned().unwrap_or_else(|| format!("?{id}"))
            }
            _ => format!("?{w}"),
        }
    }
    pub fn outpoint(&self, s: &str) -> XOutpoint {
        let (t, v) = parse_outpoint(s);
        XOutpoint::from(XChain::Bitcoin(Outpoint::new(self.txids[&t], Vout::from_u32(v))))
    }
    pub fn output_seal(&self, s: &str) -> XOutputSeal {
        // "T:w0:2"
        let (m, o) = s.split_once(':').unwrap();
        let (t, v) = parse_outpoint(o);
        XChain::Bitcoin(OutputSeal::new(method(m), Outpoint::new(self.txids[&t], Vout::from_u32(v))))
    }
    pub fn output_seal_name(&self, s: &XOutputSeal) -> String {
        let m = bp::seals::txout::TxoSeal::method(s);
        format!("{}:{}", method_name(m), self.xoutpoint_name(s.to_outpoint()))
    }
    pub fn xoutpoint_name(&self, o: XOutpoint) -> String {
        match *o {
            XChain::Bitcoin(o) => format!(
                "{}:{}",
                self.txnames.get(&o.txid).cloned().unwrap_or_else(|| format!("?{}", o.txid)),
                o.vout.into_u32()
            ),
            _ => format!("?{o}"),
        }
    }
    pub fn secret_name(&self, s: &XChain<SecretSeal>) -> String {
        self.secrets.get(s).cloned().unwrap_or_else(|| format!("?{s}"))
    }
    pub fn secret(&self, name: &str) -> XChain<SecretSeal> { self.concealed[name] }

    pub fn lvl(view: &BTreeMap<String, String>, op: &str, ty: AssignmentType, no: u16) -> String {
        view.get(&format!("{op}/{}/{no}", aty_name(ty))).cloned().unwrap_or_else(|| s("R"))
    }

    /// Transition bundle with a subset of known transitions, at the given reveal levels.
    pub fn bundle_view(
        &self,
        b: &str,
        known: &[String],
        lv: &BTreeMap<String, String>,
    ) -> TransitionBundle {
        let mut tb = self.bundles[b].clone();
        tb.known_transitions = Confined::try_from_iter(known.iter().map(|o| {
            let mut t = self.ops[o].transition().clone();
            t.assignments = conceal_assigns(&t.assignments, &|ty, no| Self::lvl(lv, o, ty, no));
            (t.id(), t)
        }))
        .unwrap();
        tb
    }

    pub fn genesis_view(&self, c: &str, lv: &BTreeMap<String, String>) -> Genesis {
        let gname = &self.spec.contracts[c].genesis;
        let Op::Genesis(g) = &self.ops[gname] else { panic!() };
        let mut g = g.clone();
        g.assignments = conceal_assigns(&g.assignments, &|ty, no| Self::lvl(lv, gname, ty, no));
        g
    }

    pub fn extension_view(&self, e: &str, lv: &BTreeMap<String, String>) -> Extension {
        let Op::Extension(x) = &self.ops[e] else { panic!() };
        let mut x = x.clone();
        x.assignments = conceal_assigns(&x.assignments, &|ty, no| Self::lvl(lv, e, ty, no));
        x
    }

    pub fn pub_witness(&self, w: &str, with_tx: bool) -> XPubWitness {
        XChain::Bitcoin(if with_tx {
            PubWitness::with(self.txs[w].clone())
        } else {
            PubWitness::new(self.txids[w])
        })
    }

    pub fn client_bundle(
        &self,
        w: &str,
        c: ContractId,
        bundle: TransitionBundle,
    ) -> Option<ClientBundle> {
        Some(match bundle.close_method {
            Method::TapretFirst => {
                let (block, proof) = self.tapret.get(w)?;
                let mp = block.to_merkle_proof(c.into()).ok()?;
                ClientBundle::new(mp, DbcProof::Tapret(proof.clone()), bundle)
            }
            Method::OpretFirst => {
                let (block, proof) = self.opret.get(w)?;
                let mp = block.to_merkle_proof(c.into()).ok()?;
                ClientBundle::new(mp, DbcProof::Opret(*proof), bundle)
            }
        })
    }

    pub fn anchor_set(&self, w: &str) -> AnchorSet {
        match (self.tapret.get(w), self.opret.get(w)) {
            (Some((b, p)), None) => AnchorSet::Tapret(Anchor::new(b.clone(), p.clone())),
            (None, Some((b, p))) => AnchorSet::Opret(Anchor::new(b.clone(), *p)),
            (Some((tb, tp)), Some((ob, op))) => AnchorSet::Double {
                tapret: Anchor::new(tb.clone(), tp.clone()),
                opret: Anchor::new(ob.clone(), *op),
            },
            (None, None) => panic!("witness without commitments"),
        }
    }

    pub fn fascia(&self, v: &FasciaView) -> Fascia {
        let mut per: BTreeMap<ContractId, Vec<TransitionBundle>> = default();
        for b in &v.bundles {
            let sb = &self.spec.bundles[&b.b];
            per.entry(self.contracts[&sb.contract])
                .or_default()
                .push(self.bundle_view(&b.b, &b.ops, &v.levels));
        }
        let bundles = per.into_iter().map(|(c, mut list)| {
            let first = list.remove(0);
            let second = if list.is_empty() { None } else { Some(list.remove(0)) };
            assert!(list.is_empty());
            (c, BundleDichotomy::from(Dichotomy::with(first, second)))
        });
        Fascia {
            witness: self.pub_witness(&v.w, true),
            anchor: self.anchor_set(&v.w),
            bundles: Confined::try_from_iter(bundles).unwrap(),
        }
    }

    pub fn seal_witness(&self, w: &str) -> SealWitness {
        SealWitness::new(self.pub_witness(w, true), self.anchor_set(w))
    }

    pub fn witness_bundle(&self, v: &WbView, lv: &BTreeMap<String, String>) -> WitnessBundle {
        let mk = |b: &BView| {
            let c = self.contracts[&self.spec.bundles[&b.b].contract];
            self.client_bundle(&v.w, c, self.bundle_view(&b.b, &b.ops, lv))
                .expect("bundle is not committed by the witness")
        };
        let mut wb = WitnessBundle::with(self.pub_witness(&v.w, v.tx), mk(&v.bundles[0]));
        for b in &v.bundles[1..] {
            wb = wb.into_double(mk(b)).expect("double witness bundle");
        }
        wb
    }

    pub fn consignment<const T: bool>(&self, v: &ConsView) -> Consignment<T> {
        let sno = self.spec.contracts[&v.contract].schema;
        let schema = self.schema[&sno].clone();
        let mut terminals: SmallOrdMap<BundleId, XChain<SecretSeal>> = default();
        for (b, s) in &v.terminals {
            terminals.insert(self.bundles[b].bundle_id(), self.secret(s)).unwrap();
        }
        let mut ifaces: TinyOrdMap<Iface, IfaceImpl> = default();
        if v.iface {
            ifaces.insert(iface(), iimpl(schema.schema_id())).unwrap();
        }
        Consignment {
            version: ContainerVer::V2,
            transfer: T,
            terminals,
            genesis: self.genesis_view(&v.contract, &v.levels),
            extensions: Confined::try_from_iter(
                v.exts.iter().map(|e| self.extension_view(e, &v.levels)),
            )
            .unwrap(),
            bundles: Confined::try_from_iter(
                v.wbs.iter().map(|wb| self.witness_bundle(wb, &v.levels)),
            )
            .unwrap(),
            schema,
            ifaces,
            supplements: default(),
            types: types().type_system(),
            scripts: default(),
            attachments: default(),
            signatures: default(),
        }
    }

    /// Ranks of identifiers which the specification needs for deterministic choices.
    pub fn ranks(&self) -> serde_json::Value {
        fn rank<K: Ord, V: Clone + Ord>(m: &BTreeMap<K, V>) -> BTreeMap<V, usize> {
            m.iter().enumerate().map(|(i, (_, v))| (v.clone(), i + 1)).collect()
        }
        serde_json::json!({
            "op": rank(&self.opids),
            "tx": rank(&self.txnames),
            "bundle": rank(&self.bids),
            "contract": rank(&self.cnames),
        })
    }
}

pub fn s(x: &str) -> String { x.to_string() }

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct BView {
    pub b: String,
    pub ops: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct WbView {
    pub w: String,
    #[serde(default = "yes")]
    pub tx: bool,
    pub bundles: Vec<BView>,
}
fn yes() -> bool { true }

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ConsView {
    pub contract: String,
    #[serde(default)]
    pub transfer: bool,
    #[serde(default)]
    pub levels: BTreeMap<String, String>,
    #[serde(default)]
    pub wbs: Vec<WbView>,
    #[serde(default)]
    pub exts: Vec<String>,
    #[serde(default)]
    pub terminals: BTreeMap<String, String>,
    #[serde(default = "yes")]
    pub iface: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct FasciaView {
    pub w: String,
    pub bundles: Vec<BView>,
    #[serde(default)]
    pub levels: BTreeMap<String, String>,
}

/// Public chain view: the resolver answering from an abstract state.
#[derive(Clone, Debug, Default)]
pub struct Chain {
    pub txs: BTreeMap<XWitnessId, Tx>,
    pub ords: BTreeMap<XWitnessId, String>,
}

pub const TS0: i64 = 1_700_000_000;

pub fn parse_ord(o: &str) -> WitnessOrd {
    match o {
        "A" => WitnessOrd::Archived,
        "T" => WitnessOrd::Tentative,
        m => {
            let h: u32 = m[1..].parse().expect("height");
            WitnessOrd::Mined(WitnessPos::bitcoin(h.try_into().unwrap(), TS0 + h as i64).unwrap())
        }
    }
}
pub fn ord_name(o: WitnessOrd) -> String {
    match o {
        WitnessOrd::Archived => s("A"),
        WitnessOrd::Tentative => s("T"),
        WitnessOrd::Mined(p) => format!("M{}", p.height()),
    }
}

impl ResolveWitness for Chain {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XWitnessTx, WitnessResolverError> {
        match self.ords.get(&id).map(String::as_str) {
            None | Some("N") => Err(WitnessResolverError::Unknown(id)),
            Some("E") => Err(WitnessResolverError::Other(id, s("offline"))),
            _ => Ok(XWitnessTx::Bitcoin(self.txs[&id].clone())),
        }
    }
    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        match self.ords.get(&id).map(String::as_str) {
            None | Some("N") => Err(WitnessResolverError::Unknown(id)),
            Some("E") => Err(WitnessResolverError::Other(id, s("offline"))),
            Some(o) => Ok(parse_ord(o)),
        }
    }
}

impl World {
    pub fn chain(&self, ords: &BTreeMap<String, String>) -> Chain {
        Chain {
            txs: self.txs.iter().map(|(n, t)| (self.wid(n), t.clone())).collect(),
            ords: ords.iter().map(|(n, o)| (self.wid(n), o.clone())).collect(),
        }
    }
}

pub type MemStock = Stock;
pub type NameSet = BTreeSet<String>;
