//! Interfaces and their implementations.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use amplify::confinement::{Confined, TinyOrdSet};
use amplify::Wrapper;
use rgbstd::containers::{Kit, ValidContract};
use rgbstd::interface::*;
use rgbstd::persistence::{SchemaIfaces, Stock};
use rgbstd::*;
use serde_json::{json, Value};
use strict_encoding::{FieldName, StrictDumb, TypeName, VariantName};
use strict_types::SemId;

use crate::cases::REFUSED;
use crate::world::*;

fn fname(s: &str) -> FieldName { FieldName::try_from(s.to_string()).expect("field name") }
fn vname(s: &str) -> VariantName { VariantName::try_from(s.to_string()).expect("variant name") }
fn tname(s: &str) -> TypeName { TypeName::try_from(s.to_string()).expect("type name") }
fn set<T: Ord>(i: impl IntoIterator<Item = T>) -> TinyOrdSet<T> { Confined::try_from_iter(i).expect("small set") }

fn sem(t: &str) -> SemId {
    match t {
        "t1" => types().get("RGBContract.Amount"),
        "t2" => types().get("RGBContract.Allocation"),
        t => panic!("type {t}"),
    }
}
fn sem_name(id: SemId) -> &'static str {
    if id == sem("t1") {
        "t1"
    } else if id == sem("t2") {
        "t2"
    } else {
        "?"
    }
}

fn occ(s: &str) -> Occurrences {
    let (a, b) = s.split_once('-').expect("range");
    let n = |x: &str| if x == "n" { u16::MAX } else { x.parse().expect("number") };
    Occurrences::try_from(n(a)..=n(b)).expect("occurrences")
}
fn occ_name(o: &Occurrences) -> String {
    let n = |x: u16| if x == u16::MAX { s("n") } else { x.to_string() };
    format!("{}-{}", n(o.min_value()), n(o.max_value()))
}

fn owned(t: &str) -> OwnedIface {
    match t {
        "any" => OwnedIface::Any,
        "rights" => OwnedIface::Rights,
        "amount" => OwnedIface::Amount,
        "anydata" => OwnedIface::AnyData,
        "anyattach" => OwnedIface::AnyAttach,
        t => OwnedIface::Data(sem(t)),
    }
}
fn owned_name(o: OwnedIface) -> &'static str {
    match o {
        OwnedIface::Any => "any",
        OwnedIface::Rights => "rights",
        OwnedIface::Amount => "amount",
        OwnedIface::AnyData => "anydata",
        OwnedIface::AnyAttach => "anyattach",
        OwnedIface::Data(id) => sem_name(id),
    }
}
fn modifier(m: &str) -> Modifier {
    match m {
        "abstract" => Modifier::Abstract,
        "override" => Modifier::Override,
        "final" => Modifier::Final,
        m => panic!("modifier {m}"),
    }
}

type Facts = BTreeMap<String, Value>;

fn key(v: &Value) -> String {
    v.as_array().expect("path").iter().map(|x| x.as_str().expect("name")).collect::<Vec<_>>().join("/")
}
fn facts(v: &Value) -> Facts {
    v.as_array().expect("facts").iter().map(|f| (key(&f["k"]), f["v"].clone())).collect()
}

/// Fields of operations.
#[derive(Default)]
struct OpFacts {
    modifier: Option<Modifier>,
    optional: bool,
    metadata: TinyOrdSet<FieldName>,
    globals: ArgMap,
    inputs: ArgMap,
    assignments: ArgMap,
    redeems: TinyOrdSet<FieldName>,
    valencies: TinyOrdSet<FieldName>,
    errors: TinyOrdSet<VariantName>,
    default: Option<FieldName>,
}

fn make(name: &str, f: &Facts) -> Iface {
    let mut i = Iface::strict_dumb();
    i.version = VerNo::V1;
    i.name = tname(name);
    i.timestamp = 1711405444;
    i.developer = Identity::default();
    let mut ops: BTreeMap<(String, String), OpFacts> = BTreeMap::new();
    for (k, v) in f {
        let p: Vec<&str> = k.split('/').collect();
        let b = |n: &str| v[n].as_bool().expect("flag");
        match p[..] {
            ["meta", n] => drop(i.metadata.insert(fname(n), sem(v.as_str().unwrap())).unwrap()),
            ["global", n] => drop(
                i.global_state
                    .insert(fname(n), GlobalIface {
                        sem_id: Some(v["t"].as_str().unwrap()).filter(|t| *t != "any").map(sem),
                        required: b("req"),
                        multiple: b("multi"),
                    })
                    .unwrap(),
            ),
            ["assign", n] => drop(
                i.assignments
                    .insert(fname(n), AssignIface {
                        owned_state: owned(v["t"].as_str().unwrap()),
                        public: b("pub"),
                        required: b("req"),
                        multiple: b("multi"),
                    })
                    .unwrap(),
            ),
            ["val", n] => drop(i.valencies.insert(fname(n), ValencyIface { required: b("req") }).unwrap()),
            ["err", n] => {
                drop(i.errors.insert(vname(n), Confined::try_from(s(v.as_str().unwrap())).unwrap()).unwrap())
            }
            ["default"] => i.default_operation = Some(fname(v.as_str().unwrap())),
            [kind, name, ref field @ ..] => {
                let op = ops.entry((s(kind), s(name))).or_default();
                match *field {
                    [] => {
                        op.modifier = Some(modifier(v["mod"].as_str().unwrap()));
                        op.optional = b("opt");
                    }
                    ["meta", n] => op.metadata.push(fname(n)).unwrap(),
                    ["val", n] => op.valencies.push(fname(n)).unwrap(),
                    ["red", n] => op.redeems.push(fname(n)).unwrap(),
                    ["err", n] => op.errors.push(vname(n)).unwrap(),
                    ["glob", n] => drop(op.globals.insert(fname(n), occ(v.as_str().unwrap())).unwrap()),
                    ["asg", n] => drop(op.assignments.insert(fname(n), occ(v.as_str().unwrap())).unwrap()),
                    ["in", n] => drop(op.inputs.insert(fname(n), occ(v.as_str().unwrap())).unwrap()),
                    ["default"] => op.default = Some(fname(v.as_str().unwrap())),
                    _ => panic!("path {k}"),
                }
            }
            _ => panic!("path {k}"),
        }
    }
    for ((kind, name), op) in ops {
        let modifier = op.modifier.expect("modifier");
        match kind.as_str() {
            "gen" => {
                i.genesis = GenesisIface {
                    modifier,
                    metadata: op.metadata,
                    globals: op.globals,
                    assignments: op.assignments,
                    valencies: op.valencies,
                    errors: op.errors,
                }
            }
            "trans" => drop(
                i.transitions
                    .insert(fname(&name), TransitionIface {
                        modifier,
                        optional: op.optional,
                        metadata: op.metadata,
                        globals: op.globals,
                        inputs: op.inputs,
                        assignments: op.assignments,
                        valencies: op.valencies,
                        errors: op.errors,
                        default_assignment: op.default,
                    })
                    .unwrap(),
            ),
            "ext" => drop(
                i.extensions
                    .insert(fname(&name), ExtensionIface {
                        modifier,
                        optional: op.optional,
                        metadata: op.metadata,
                        globals: op.globals,
                        assignments: op.assignments,
                        redeems: op.redeems,
                        valencies: op.valencies,
                        errors: op.errors,
                        default_assignment: op.default,
                    })
                    .unwrap(),
            ),
            k => panic!("operation {k}"),
        }
    }
    i
}

macro_rules! op_facts {
    ($f:expr, $h:expr, $op:expr) => {
        for n in &$op.metadata {
            $f.insert(format!("{}/meta/{n}", $h), json!(""));
        }
        for n in &$op.valencies {
            $f.insert(format!("{}/val/{n}", $h), json!(""));
        }
        for n in &$op.errors {
            $f.insert(format!("{}/err/{n}", $h), json!(""));
        }
        for (n, o) in &$op.globals {
            $f.insert(format!("{}/glob/{n}", $h), json!(occ_name(o)));
        }
        for (n, o) in &$op.assignments {
            $f.insert(format!("{}/asg/{n}", $h), json!(occ_name(o)));
        }
    };
}

/// What an interface requires, modifiers of operations aside.
fn facts_of(i: &Iface) -> Facts {
    let mut f = Facts::new();
    let head = || json!({"mod": "any", "opt": false});
    for (n, t) in &i.metadata {
        f.insert(format!("meta/{n}"), json!(sem_name(*t)));
    }
    for (n, g) in &i.global_state {
        let t = g.sem_id.map(sem_name).unwrap_or("any");
        f.insert(format!("global/{n}"), json!({"t": t, "req": g.required, "multi": g.multiple}));
    }
    for (n, a) in &i.assignments {
        let t = owned_name(a.owned_state);
        f.insert(format!("assign/{n}"), json!({"t": t, "pub": a.public, "req": a.required, "multi": a.multiple}));
    }
    for (n, v) in &i.valencies {
        f.insert(format!("val/{n}"), json!({"req": v.required}));
    }
    for (n, e) in &i.errors {
        f.insert(format!("err/{n}"), json!(e.as_str()));
    }
    if let Some(d) = &i.default_operation {
        f.insert(s("default"), json!(d.to_string()));
    }
    f.insert(s("gen/"), head());
    op_facts!(f, "gen/", i.genesis);
    for (n, t) in &i.transitions {
        let h = format!("trans/{n}");
        f.insert(h.clone(), head());
        op_facts!(f, h, t);
        for (n, o) in &t.inputs {
            f.insert(format!("{h}/in/{n}"), json!(occ_name(o)));
        }
        if let Some(d) = &t.default_assignment {
            f.insert(format!("{h}/default"), json!(d.to_string()));
        }
    }
    for (n, t) in &i.extensions {
        let h = format!("ext/{n}");
        f.insert(h.clone(), head());
        op_facts!(f, h, t);
        for n in &t.redeems {
            f.insert(format!("{h}/red/{n}"), json!(""));
        }
        if let Some(d) = &t.default_assignment {
            f.insert(format!("{h}/default"), json!(d.to_string()));
        }
    }
    f
}

fn op_key(op: &OpName) -> String {
    match op {
        OpName::Genesis => s("gen/"),
        OpName::Transition(n) => format!("trans/{n}"),
        OpName::Extension(n) => format!("ext/{n}"),
    }
}

fn conflict_key(e: ExtensionError) -> String {
    match e {
        ExtensionError::MetaType(n) => format!("meta/{n}"),
        ExtensionError::GlobalType(n) | ExtensionError::GlobalOcc(n) => format!("global/{n}"),
        ExtensionError::AssignmentType(n)
        | ExtensionError::AssignmentOcc(n)
        | ExtensionError::AssignmentPublic(n) => format!("assign/{n}"),
        ExtensionError::ValencyOcc(n) => format!("val/{n}"),
        ExtensionError::DefaultOverride => s("default"),
        ExtensionError::OpFinal(op) | ExtensionError::OpNoOverride(op) => op_key(&op),
        ExtensionError::OpDefaultOverride(op) => format!("{}/default", op_key(&op)),
        ExtensionError::OpOcc(op, field, n) => {
            let field = match field {
                "global" => "glob",
                "assignment" => "asg",
                "input" => "in",
                f => f,
            };
            format!("{}/{field}/{n}", op_key(&op))
        }
        e => format!("{e:?}"),
    }
}

fn inconsistency_key(e: IfaceInconsistency) -> Vec<String> {
    use IfaceInconsistency::*;
    let at = |kind: &str, op: &OpName, field: &str, n: &str| vec![s(kind), format!("{}/{field}/{n}", op_key(op))];
    match e {
        UnknownGlobal(op, n) => at("unknown", &op, "glob", n.as_str()),
        UnknownValency(op, n) => at("unknown", &op, "val", n.as_str()),
        UnknownRedeem(op, n) => at("unknown", &op, "red", n.as_str()),
        UnknownAssignment(op, n) => at("unknown", &op, "asg", n.as_str()),
        UnknownInput(op, n) => at("unknown", &op, "in", n.as_str()),
        UnknownError(op, n) => at("unknown", &op, "err", n.as_str()),
        UnknownMetadata(op, n) => at("unknown", &op, "meta", n.as_str()),
        UnknownDefaultAssignment(op, _) => vec![s("unknown"), format!("{}/default", op_key(&op))],
        UnknownDefaultOp(_) => vec![s("unknown"), s("default")],
        MultipleGlobal(op, n) => at("multiple", &op, "glob", n.as_str()),
        MultipleAssignment(op, n) => at("multiple", &op, "asg", n.as_str()),
        MultipleInputs(op, n) => at("multiple", &op, "in", n.as_str()),
        RepeatedOperationName(n) => vec![s("repeated"), format!("trans/{n}")],
        RequiredGlobalAbsent(n) => vec![s("absent"), format!("global/{n}")],
        RequiredAssignmentAbsent(n) => vec![s("absent"), format!("assign/{n}")],
        RequiredValencyAbsent(n) => vec![s("absent"), format!("val/{n}")],
        e => vec![format!("{e:?}")],
    }
}

fn ancestor(n: u8) -> IfaceId { IfaceId::from_array(h32(&format!("ancestor {n}"))) }

fn extend(c: &Value) -> Value {
    let mut a = make("BaseIface", &facts(&c["a"]));
    let mut e = make("ExtIface", &facts(&c["e"]));
    a.inherits.push(ancestor(1)).unwrap();
    e.inherits.push(ancestor(2)).unwrap();
    e.inherits.push(ancestor(3)).unwrap();
    let known: BTreeSet<_> = [ancestor(1), ancestor(2), ancestor(3), a.iface_id(), e.iface_id()].into();
    let inherited = Iface::inherit(tname("NewIface"), [a.clone(), e.clone()]);
    match a.extended(e, tname("NewIface")) {
        Ok(i) => {
            assert_eq!(i.name, tname("NewIface"), "name");
            assert_eq!(i.inherits.iter().copied().collect::<BTreeSet<_>>(), known, "ancestors");
            assert_eq!(inherited.as_ref(), Ok(&i), "inherited differently");
            json!({"facts": facts_of(&i)})
        }
        Err(es) => {
            assert!(inherited.is_err(), "inherited differently");
            json!({"problems": es.into_iter().map(conflict_key).collect::<BTreeSet<_>>()})
        }
    }
}

fn head(c: &Value) -> Value {
    let k = key(&c["op"]);
    let side = |v: &Value| {
        let mut f = Facts::new();
        f.insert(s("gen/"), json!({"mod": "override", "opt": false}));
        f.insert(k.clone(), v.clone());
        make("SomeIface", &f)
    };
    match side(&c["a"]).extended(side(&c["e"]), tname("NewIface")) {
        Err(_) => json!(REFUSED),
        Ok(i) => {
            let (m, o) = match &k[..] {
                "gen/" => (i.genesis.modifier, false),
                k if k.starts_with("trans") => {
                    let t = i.transitions.values().next().expect("transition");
                    (t.modifier, t.optional)
                }
                _ => {
                    let t = i.extensions.values().next().expect("extension");
                    (t.modifier, t.optional)
                }
            };
            json!({"mod": m.to_string(), "opt": o})
        }
    }
}

// ------------------------------------------------------------ implementations

fn strings(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| s(x.as_str().unwrap())).collect()).unwrap_or_default()
}

/// An interface with the names.
fn named(name: &str, names: &Value, optional: bool) -> Iface {
    let mut f = Facts::new();
    let head = json!({"mod": "final", "opt": optional});
    f.insert(s("gen/"), head.clone());
    for cat in ["meta", "global", "assign", "val", "trans", "ext", "err"] {
        for n in strings(&names[cat]) {
            let v = match cat {
                "meta" => json!("t1"),
                "global" => json!({"t": "any", "req": false, "multi": true}),
                "assign" => json!({"t": "any", "pub": false, "req": false, "multi": true}),
                "val" => json!({"req": false}),
                "err" => json!("m1"),
                _ => head.clone(),
            };
            f.insert(format!("{cat}/{n}"), v);
        }
    }
    make(name, &f)
}

fn small_schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        let mut x = schema_no(0);
        let g = x.global_types.values().next().unwrap().clone();
        let o = x.owned_types.values().next().unwrap().clone();
        let t = x.transitions.values().next().unwrap().clone();
        let e = x.extensions.values().next().unwrap().clone();
        x.meta_types = Confined::try_from_iter([1, 2].map(|i| (MetaType::with(i), sem("t1")))).unwrap();
        x.global_types = Confined::try_from_iter([1, 2].map(|i| (GlobalStateType::with(i), g.clone()))).unwrap();
        x.owned_types = Confined::try_from_iter([1, 2].map(|i| (AssignmentType::with(i), o.clone()))).unwrap();
        x.valency_types = set([1, 2].map(ValencyType::with));
        x.transitions = Confined::try_from_iter([1, 2].map(|i| (TransitionType::with(i), t.clone()))).unwrap();
        x.extensions = Confined::try_from_iter([1, 2].map(|i| (ExtensionType::with(i), e.clone()))).unwrap();
        x
    })
}

fn mapped(iface: &Iface, schema: &Schema, m: &Value) -> IfaceImpl {
    let pairs = |cat: &str| -> Vec<(String, u16)> {
        m[cat]
            .as_array()
            .map(|a| a.iter().map(|p| (s(p[0].as_str().unwrap()), p[1].as_u64().unwrap() as u16)).collect())
            .unwrap_or_default()
    };
    macro_rules! fields {
        ($cat:expr, $t:ident) => {
            set(pairs($cat).into_iter().map(|(n, i)| NamedField::with($t::with(i), fname(&n))))
        };
    }
    IfaceImpl {
        version: VerNo::V1,
        schema_id: schema.schema_id(),
        iface_id: iface.iface_id(),
        timestamp: 1713261744,
        metadata: fields!("meta", MetaType),
        global_state: fields!("global", GlobalStateType),
        assignments: fields!("assign", AssignmentType),
        valencies: fields!("val", ValencyType),
        transitions: fields!("trans", TransitionType),
        extensions: fields!("ext", ExtensionType),
        errors: set(pairs("err").into_iter().map(|(n, i)| NamedVariant::with(i as u8, vname(&n)))),
        developer: Identity::default(),
    }
}

fn mapping_of(i: &IfaceImpl) -> Value {
    macro_rules! pairs {
        ($x:expr) => {
            $x.iter().map(|f| json!([f.name.to_string(), f.id.to_inner()])).collect::<Vec<_>>()
        };
    }
    let mut v = json!({
        "meta": pairs!(i.metadata), "global": pairs!(i.global_state), "assign": pairs!(i.assignments),
        "val": pairs!(i.valencies), "trans": pairs!(i.transitions), "ext": pairs!(i.extensions),
        "err": i.errors.iter().map(|f| json!([f.name.to_string(), f.id])).collect::<Vec<_>>(),
    });
    sort_lists(&mut v);
    v
}
fn sort_lists(v: &mut Value) {
    if let Some(o) = v.as_object_mut() {
        for (_, l) in o {
            l.as_array_mut().expect("list").sort_by_key(|x| x.to_string());
        }
    }
}

/// Names are found by types and types by names.
fn lookups(i: &IfaceImpl) {
    let names: Vec<FieldName> = ["w", "x", "y", "z"].into_iter().map(fname).collect();
    macro_rules! exact {
        ($list:ident, $t:ident, $ty:ident, $name:ident) => {
            for n in &names {
                let found = i.$ty(n);
                let known: BTreeSet<_> = i.$list.iter().filter(|f| &f.name == n).map(|f| f.id).collect();
                assert_eq!(found.is_some(), !known.is_empty(), "{} {n}", stringify!($ty));
                assert!(found.iter().all(|id| known.contains(id)), "{} {n} is {found:?}", stringify!($ty));
            }
            for id in [0, 1, 2, 3].map($t::with) {
                let found = i.$name(id);
                let known: BTreeSet<_> = i.$list.iter().filter(|f| f.id == id).map(|f| &f.name).collect();
                assert_eq!(found.is_some(), !known.is_empty(), "{} {id}", stringify!($name));
                assert!(found.iter().all(|n| known.contains(n)), "{} {id} is {found:?}", stringify!($name));
            }
        };
    }
    exact!(metadata, MetaType, meta_type, meta_name);
    exact!(global_state, GlobalStateType, global_type, global_name);
    exact!(assignments, AssignmentType, assignments_type, assignment_name);
    exact!(valencies, ValencyType, valency_type, valency_name);
    exact!(transitions, TransitionType, transition_type, transition_name);
    exact!(extensions, ExtensionType, extension_type, extension_name);
    for no in 0..4u8 {
        let known: BTreeSet<_> = i.errors.iter().filter(|f| f.id == no).map(|f| &f.name).collect();
        let found = i.error_name(no);
        assert!(found.is_some() != known.is_empty() && found.iter().all(|n| known.contains(n)), "name of error {no}");
    }
}

fn check_impl(c: &Value) -> Value {
    let iface = named("SomeIface", &c["i"], c["opt"].as_bool().unwrap());
    let mut i = mapped(&iface, small_schema(), &c["m"]);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    match c["time"].as_str().unwrap() {
        "past" => {}
        "now" => i.timestamp = now,
        "future" => i.timestamp = now + 100_000,
        _ => i.timestamp = i64::MAX,
    }
    let problems: BTreeSet<[String; 3]> = match i.check(&iface, small_schema()) {
        Ok(()) => default(),
        Err(es) => {
            assert!(!es.is_empty(), "no problem reported");
            es.into_iter()
                .map(|e| {
                    // the type of the error is not public
                    let (debug, text) = (format!("{e:?}"), e.to_string());
                    let kind = debug.split('(').next().unwrap();
                    let name = text.split('\'').nth(1).unwrap_or("");
                    let cats = [
                        ("meta", "Meta"), ("global", "Global"), ("assign", "Assignment"), ("val", "Valenc"),
                        ("trans", "Transition"), ("ext", "Extension"), ("err", "Error"),
                    ];
                    let cat = cats.iter().find(|(_, n)| kind.contains(n)).map(|(c, _)| *c).unwrap_or("");
                    match kind {
                        "InvalidTimestamp" => [s("time"), s("invalid"), s("")],
                        "FutureTimestamp" => [s("time"), s("future"), s("")],
                        k if k.starts_with("Repeated") => [s("repeated"), s(cat), s(name)],
                        k if k.starts_with("Schema") => [s("schema"), s(cat), s(name)],
                        "IfaceErrorAbsent" => [s("unknown"), s(cat), s(name)],
                        k if k.starts_with("Iface") => [s("missing"), s(cat), s(name)],
                        k => [s(k), s(cat), s(name)],
                    }
                })
                .collect()
        }
    };
    json!(problems)
}

fn abstracted(c: &Value) -> Value {
    let parent = named("ParentIface", &c["p"], false);
    let both = json!(["x", "y"]);
    let all = json!({"meta": both, "global": both, "assign": both, "val": both, "trans": both, "ext": both, "err": both});
    let mut base = named("BaseIface", &all, false);
    let inherits: &[IfaceId] = match c["at"].as_str().unwrap() {
        "first" => &[parent.iface_id(), ancestor(1), ancestor(2)],
        "last" => &[ancestor(1), parent.iface_id()],
        _ => &[ancestor(1), ancestor(2)],
    };
    base.inherits = Confined::try_from_iter(inherits.iter().copied()).unwrap();
    let i = mapped(&base, small_schema(), &c["m"]);
    lookups(&i);
    match i.clone().abstracted(&base, &parent) {
        None => json!(REFUSED),
        Some(a) => {
            assert_eq!(a.iface_id, parent.iface_id(), "interface");
            assert_eq!(a.schema_id, i.schema_id, "schema");
            lookups(&a);
            assert_eq!(a.check(&parent, small_schema()), Ok(()), "doesn't implement the parent");
            mapping_of(&a)
        }
    }
}

/// A contract which comes with no interfaces.
fn plain_contract() -> ValidContract {
    thread_local! {
        static C: ValidContract = {
            let spec = json!({"order": ["g"], "funding": ["f0"], "contracts": {"c": {"genesis": "g", "schema": 0}},
                "ops": {"g": {"contract": "c", "kind": "genesis",
                    "assigns": [{"ty": "A", "tx": "f0", "vout": 0, "m": "T", "val": 5}]}},
                "bundles": {}, "witnesses": {}});
            let w = World::build(serde_json::from_value(spec).expect("world"));
            let contract = w.consignment::<false>(&ConsView { contract: s("c"), iface: false, ..ConsView::default() });
            contract.validate(&w.chain(&default()), true).map_err(|e| e.0).expect("valid contract")
        };
    }
    C.with(|c| c.clone())
}

fn serve(c: &Value) -> Value {
    let schema = schema_no(0);
    let mut ifaces: BTreeMap<String, Iface> = BTreeMap::new();
    for n in ["1", "2", "3"] {
        let mut i = iface();
        i.name = tname(&format!("Parent{n}"));
        ifaces.insert(s(n), i);
    }
    let mut own = iface();
    own.name = tname("OwnIface");
    own.inherits = Confined::try_from_iter(strings(&c["inh"]).iter().map(|n| ifaces[n].iface_id())).unwrap();
    ifaces.insert(s("own"), own.clone());
    let mut has = strings(&c["has"]);
    if c["own"].as_bool().unwrap() {
        has.push(s("own"));
    }
    let mut si = SchemaIfaces::new(schema.clone());
    let mut kit = Kit::default();
    kit.schemata.push(schema.clone()).unwrap();
    for i in ifaces.values() {
        kit.ifaces.push(i.clone()).unwrap();
    }
    for n in &has {
        let mut m = iimpl(schema.schema_id());
        m.iface_id = ifaces[n].iface_id();
        si.iimpls.insert(ifaces[n].name.clone(), m.clone()).unwrap();
        kit.iimpls.push(m).unwrap();
    }
    kit.types = types().type_system();
    let name = |id: IfaceId| ifaces.iter().find(|(_, i)| i.iface_id() == id).map(|(n, _)| n.clone()).expect("known interface");
    let pure = own.find_abstractable_impl(&si).map(|i| name(i.iface_id)).unwrap_or(s("none"));

    let mut stock = Stock::in_memory();
    stock.import_kit(kit.validate().unwrap_or_else(|_| panic!("kit"))).expect("kit imported");
    let contract = plain_contract();
    let id = contract.genesis.contract_id();
    stock.import_contract(contract, &Chain::default()).expect("contract imported");
    let r: IfaceRef = if c["by"] == "name" { own.name.clone().into() } else { own.iface_id().into() };
    let served = match stock.contract_iface(id, r) {
        Ok(i) => {
            assert_eq!(i.contract_id(), id, "contract");
            assert_eq!(i.iface.schema_id, schema.schema_id(), "schema");
            name(i.iface.iface_id)
        }
        Err(_) => s("none"),
    };
    assert_eq!(pure, served, "served differently");
    json!(served)
}

fn schema_of(facts: &Value) -> Schema {
    let mut x = schema_no(0);
    x.meta_types = default();
    x.global_types = default();
    x.owned_types = default();
    x.valency_types = default();
    x.genesis = GenesisSchema { metadata: default(), globals: default(), assignments: default(), valencies: default(), validator: None };
    x.transitions = default();
    x.extensions = default();
    let facts: Vec<(String, String, u16, String)> = facts
        .as_array()
        .unwrap()
        .iter()
        .map(|f| (s(f[0][0].as_str().unwrap()), s(f[0][1].as_str().unwrap()), f[1].as_u64().unwrap() as u16, s(f[2].as_str().unwrap())))
        .collect();
    let no = |op: &str| -> u16 { op[1..].parse().expect("number of the operation") };
    for (op, place, t, def) in facts.iter().filter(|f| f.0.is_empty()) {
        let def = def.as_str();
        match place.as_str() {
            "global" => {
                let sch = match def {
                    "t1many" => GlobalStateSchema::many(sem("t1")),
                    d => GlobalStateSchema::once(sem(d)),
                };
                x.global_types.insert(GlobalStateType::with(*t), sch).unwrap();
            }
            "owned" => {
                let sch = match def {
                    "rights" => OwnedStateSchema::Declarative,
                    "amount" => OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit),
                    "media" => OwnedStateSchema::Attachment(MediaType::Any),
                    d => OwnedStateSchema::Structured(sem(d)),
                };
                x.owned_types.insert(AssignmentType::with(*t), sch).unwrap();
            }
            "val" => x.valency_types.push(ValencyType::with(*t)).unwrap(),
            "trans" => {
                let sch = TransitionSchema {
                    metadata: default(), globals: default(), inputs: default(), assignments: default(), valencies: default(), validator: None,
                };
                x.transitions.insert(TransitionType::with(*t), sch).unwrap();
            }
            "ext" => {
                let sch = ExtensionSchema {
                    metadata: default(), globals: default(), redeems: default(), assignments: default(), valencies: default(), validator: None,
                };
                x.extensions.insert(ExtensionType::with(*t), sch).unwrap();
            }
            p => panic!("{op}.{p}"),
        }
    }
    for (op, place, t, def) in facts.iter().filter(|f| !f.0.is_empty()) {
        macro_rules! put {
            ($o:expr) => {
                match place.as_str() {
                    "global" => {
                        $o.globals.insert(GlobalStateType::with(*t), occ(def)).unwrap();
                    }
                    "assign" => {
                        $o.assignments.insert(AssignmentType::with(*t), occ(def)).unwrap();
                    }
                    "val" => $o.valencies.push(ValencyType::with(*t)).unwrap(),
                    p => panic!("{op}.{p}"),
                }
            };
        }
        if op == "genesis" {
            put!(x.genesis);
        } else if op.starts_with('t') {
            let o = x.transitions.get_mut(&TransitionType::with(no(op))).unwrap();
            if place == "in" {
                o.inputs.insert(AssignmentType::with(*t), occ(def)).unwrap();
            } else {
                put!(o);
            }
        } else {
            let o = x.extensions.get_mut(&ExtensionType::with(no(op))).unwrap();
            if place == "redeem" {
                o.redeems.push(ValencyType::with(*t)).unwrap();
            } else {
                put!(o);
            }
        }
    }
    x
}

fn check_schema(c: &Value) -> Value {
    use InheritanceFailure::*;
    let (sub, root) = (schema_of(&c["s"]), schema_of(&c["r"]));
    let op = |o: OpFullType| match o {
        OpFullType::Genesis => s("genesis"),
        OpFullType::StateTransition(t) => format!("t{}", t.to_inner()),
        OpFullType::StateExtension(t) => format!("e{}", t.to_inner()),
    };
    let problems: BTreeSet<(String, &str, u16)> = match sub.check_inheritance(&root) {
        Ok(()) => default(),
        Err(es) => {
            assert!(!es.is_empty(), "no problem reported");
            es.into_iter()
                .map(|e| match e {
                    GlobalStateMismatch(t) => (s(""), "global", t.to_inner()),
                    AssignmentTypeMismatch(t) => (s(""), "owned", t.to_inner()),
                    ValencyTypeMismatch(t) => (s(""), "val", t.to_inner()),
                    TransitionTypeMismatch(t) => (s(""), "trans", t.to_inner()),
                    ExtensionTypeMismatch(t) => (s(""), "ext", t.to_inner()),
                    OpGlobalStateMismatch(o, t) => (op(o), "global", t.to_inner()),
                    OpInputMismatch(o, t) => (op(o), "in", t.to_inner()),
                    OpRedeemMismatch(o, t) => (op(o), "redeem", t.to_inner()),
                    OpAssignmentsMismatch(o, t) => (op(o), "assign", t.to_inner()),
                    OpValencyMismatch(o, t) => (op(o), "val", t.to_inner()),
                })
                .collect()
        }
    };
    json!(problems)
}

/// Calls a function; sets in the specified results are put in order.
pub fn call(c: &Value) -> (Value, Value) {
    let mut c = c.clone();
    let f = s(c["f"].as_str().unwrap());
    let outs = c["out"].as_array_mut().expect("results");
    match f.as_str() {
        "iface.extend" => {
            for o in outs {
                *o = match o.get("facts") {
                    Some(f) => json!({"facts": facts(f)}),
                    None => json!({"problems": o["problems"].as_array().unwrap().iter().map(key).collect::<BTreeSet<_>>()}),
                };
            }
        }
        "iface.check" => {
            for o in outs {
                *o = json!(o
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| [s(p[0].as_str().unwrap()), key(&p[1])])
                    .collect::<BTreeSet<_>>());
            }
        }
        "impl.check" => {
            for o in outs {
                *o = json!(o.as_array().unwrap().iter().map(strings).collect::<BTreeSet<_>>());
            }
        }
        "impl.schema" => {
            for o in outs {
                *o = json!(o
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| (s(p[0].as_str().unwrap()), s(p[1].as_str().unwrap()), p[2].as_u64().unwrap()))
                    .collect::<BTreeSet<_>>());
            }
        }
        "impl.abstract" => outs.iter_mut().for_each(sort_lists),
        _ => {}
    }
    let got = match f.as_str() {
        "iface.extend" => extend(&c),
        "iface.head" => head(&c),
        "iface.check" => {
            let i = make("SomeIface", &facts(&c["a"]));
            json!(i.check().err().unwrap_or_default().into_iter().map(inconsistency_key).collect::<BTreeSet<_>>())
        }
        "impl.check" => check_impl(&c),
        "impl.abstract" => abstracted(&c),
        "impl.serve" => serve(&c),
        "impl.schema" => check_schema(&c),
        f => panic!("unknown function {f}"),
    };
    (got, c)
}

fn default<T: Default>() -> T { T::default() }
