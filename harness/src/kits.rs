//! Importing and exporting kits, signatures and supplements.

use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::OnceLock;

use aluvm::library::{Lib, LibSeg, LibSite};
use amplify::confinement::{Confined, NonEmptyBlob, TinyOrdMap, TinyOrdSet};
use rgbstd::containers::*;
use rgbstd::info::{FeatureList, IfaceClassName};
use rgbstd::interface::*;
use rgbstd::persistence::{StashReadProvider, StashWriteProvider, Stock};
use rgbstd::*;
use serde_json::{json, Value};
use strict_encoding::{FieldName, StrictDumb, TypeName};
use strict_types::{SemId, TypeSystem};

use crate::cases::attempt;
use crate::world::*;

fn none<T: Default>() -> T { T::default() }
fn fname(s: &str) -> FieldName { FieldName::try_from(s.to_string()).expect("field name") }
fn tname(s: &str) -> TypeName { TypeName::try_from(s.to_string()).expect("type name") }
fn list(v: &Value) -> Vec<&str> { v.as_array().expect("list").iter().map(|x| x.as_str().expect("name")).collect() }
fn text<'a>(v: &'a Value, n: &str) -> &'a str { v[n].as_str().unwrap_or_else(|| panic!("{n} of {v}")) }
fn sorted(mut v: Vec<Value>) -> Value {
    v.sort_by_key(|x| x.to_string());
    json!(v)
}
fn set<T: Ord>(i: impl IntoIterator<Item = T>) -> TinyOrdSet<T> { Confined::try_from_iter(i).expect("small set") }

struct Parts {
    schemata: BTreeMap<&'static str, Schema>,
    ifaces: BTreeMap<&'static str, Iface>,
    impls: BTreeMap<&'static str, IfaceImpl>,
}

fn sem(t: &str) -> SemId {
    match t {
        "ta" => types().get("RGBContract.Amount"),
        _ => types().get("RGBContract.Allocation"),
    }
}
fn lib(n: &str) -> Lib {
    Lib::with("ALU", if n == "l1" { vec![0x00] } else { vec![0x01, 0x02] }, vec![], LibSeg::default()).expect("library")
}

fn parts() -> &'static Parts {
    static P: OnceLock<Parts> = OnceLock::new();
    P.get_or_init(|| {
        let mut s1 = schema_no(0);
        let amount = |x: &GlobalStateSchema| x.sem_id == sem("ta");
        s1.global_types = Confined::try_from_iter(s1.global_types.release().into_iter().filter(|(_, g)| amount(g))).unwrap();
        s1.owned_types = Confined::try_from_iter(
            s1.owned_types.release().into_iter().filter(|(_, o)| !matches!(o, OwnedStateSchema::Structured(_))),
        )
        .unwrap();
        let mut s2 = schema_no(1);
        s2.genesis.validator = Some(LibSite::with(0, lib("l1").id()));
        let mut tr = s2.transitions.release();
        for t in tr.values_mut() {
            t.validator = Some(LibSite::with(0, lib("l2").id()));
        }
        s2.transitions = Confined::try_from(tr).unwrap();
        let face = |name: &str, globals: &[(&str, &str)], dev: &str| {
            let mut i = Iface::strict_dumb();
            i.name = tname(name);
            i.developer = Identity::from_str(dev).unwrap();
            i.global_state = Confined::try_from_iter(globals.iter().map(|(n, t)| {
                (fname(n), GlobalIface { sem_id: Some(sem(t)), required: false, multiple: false })
            }))
            .unwrap();
            i
        };
        let i1 = face("FaceOne", &[("aa", "ta")], "ssi:one");
        let mut i2 = face("FaceTwo", &[], "ssi:one");
        i2.metadata.insert(fname("mm"), sem("tb")).unwrap();
        let mut j1 = face("FaceOne", &[], "ssi:two");
        j1.assignments
            .insert(fname("dd"), AssignIface {
                owned_state: OwnedIface::Data(sem("tb")),
                public: false,
                required: false,
                multiple: false,
            })
            .unwrap();
        let imp = |s: &Schema, i: &Iface, dev: &str| {
            let mut m = iimpl(s.schema_id());
            m.iface_id = i.iface_id();
            m.developer = Identity::from_str(dev).unwrap();
            m
        };
        Parts {
            impls: [
                ("m11", imp(&s1, &i1, "ssi:one")),
                ("m11b", imp(&s1, &i1, "ssi:two")),
                ("m12", imp(&s1, &i2, "ssi:one")),
                ("m21", imp(&s2, &i1, "ssi:one")),
                ("m1j", imp(&s1, &j1, "ssi:one")),
            ]
            .into(),
            schemata: [("s1", s1), ("s2", s2)].into(),
            ifaces: [("i1", i1), ("i2", i2), ("j1", j1)].into(),
        }
    })
}

fn named<'a, T: PartialEq + 'a>(all: &BTreeMap<&'static str, T>, have: impl IntoIterator<Item = &'a T>) -> Value {
    let names = have.into_iter().map(|x| {
        json!(all.iter().find(|(_, y)| *y == x).map(|(n, _)| *n).unwrap_or("?"))
    });
    sorted(names.collect())
}

fn kit(v: &Value) -> Kit {
    let p = parts();
    let all = {
        static ALL: OnceLock<TypeSystem> = OnceLock::new();
        ALL.get_or_init(|| types().type_system())
    };
    Kit {
        version: ContainerVer::V2,
        schemata: set(list(&v["s"]).into_iter().map(|n| p.schemata[n].clone())),
        ifaces: set(list(&v["i"]).into_iter().map(|n| p.ifaces[n].clone())),
        iimpls: set(list(&v["m"]).into_iter().map(|n| p.impls[n].clone())),
        supplements: none(),
        types: match list(&v["t"]) {
            l if l.is_empty() => none(),
            l => all.extract(l.into_iter().map(sem)).expect("types"),
        },
        scripts: Confined::try_from_iter(list(&v["l"]).into_iter().map(lib)).unwrap(),
        signatures: none(),
    }
}
fn known_types(t: &TypeSystem) -> Value {
    sorted(["ta", "tb"].into_iter().filter(|n| t.get(sem(n)).is_some()).map(|n| json!(n)).collect())
}
fn show(k: &Kit) -> Value {
    let p = parts();
    let libs: BTreeMap<&str, Lib> = ["l1", "l2"].into_iter().map(|n| (n, lib(n))).collect();
    json!({"s": named(&p.schemata, &k.schemata), "i": named(&p.ifaces, &k.ifaces), "m": named(&p.impls, &k.iimpls),
        "t": known_types(&k.types), "l": named(&libs, &k.scripts)})
}

fn issue(stock: &Stock) -> Value {
    let p = parts();
    let mut res = vec![];
    for (s, schema) in &p.schemata {
        for (i, iface) in &p.ifaces {
            let r = stock.contract_builder(Identity::default(), schema.schema_id(), iface.iface_id());
            if r.is_ok() {
                res.push(json!([s, i]));
            }
        }
    }
    sorted(res)
}

fn see(stock: &Stock) -> Value {
    let p = parts();
    let stash = stock.as_stash_provider();
    let mut export = json!({});
    for (s, schema) in &p.schemata {
        export[s] = match stock.export_schema(schema.schema_id()) {
            Err(_) => json!({"kit": "refused", "issue": []}),
            Ok(k) => {
                let k = k.into_kit();
                let shown = show(&k);
                let mut fresh = Stock::in_memory();
                fresh.import_kit(k.clone().validate().expect("valid kit")).expect("exported kit is imported");
                let again = fresh.export_schema(schema.schema_id()).expect("exported again").into_kit();
                assert_eq!(again.kit_id(), k.kit_id(), "kit exported again");
                json!({"kit": shown, "issue": issue(&fresh)})
            }
        };
    }
    let mut impls = vec![];
    for s in stash.schemata().expect("schemata") {
        for i in s.iimpls.values() {
            assert_eq!(i.schema_id, s.schema.schema_id(), "schema of an implementation");
            impls.push(i);
        }
    }
    let mut names = vec![];
    for (n, name) in [("i1", "FaceOne"), ("i2", "FaceTwo")] {
        if let Ok(i) = stock.iface(tname(name)) {
            assert_eq!(i.name, tname(name), "interface by its name");
            names.push(json!(n));
        }
    }
    for (_, i) in &p.ifaces {
        let known = stash.ifaces().expect("interfaces").any(|x| x == i);
        assert_eq!(stock.iface(i.iface_id()).is_ok(), known, "interface by its id");
    }
    json!({"s": named(&p.schemata, stash.schemata().expect("schemata").map(|s| &s.schema)),
        "i": named(&p.ifaces, stash.ifaces().expect("interfaces")),
        "m": named(&p.impls, impls),
        "t": known_types(stash.type_system().expect("types")),
        "l": sorted(["l1", "l2"].into_iter().filter(|n| stash.lib(lib(n).id()).is_ok()).map(|n| json!(n)).collect()),
        "names": sorted(names), "issue": issue(stock), "export": export})
}

/// Listings name just what is known.
fn listings(stock: &Stock) {
    let stash = stock.as_stash_provider();
    let mut left: BTreeMap<_, _> = stash.ifaces().expect("interfaces").map(|i| (i.iface_id(), i)).collect();
    let names: BTreeMap<_, _> = left.values().map(|i| (i.iface_id(), i.name.clone())).collect();
    for info in stock.ifaces().expect("listed interfaces") {
        let i = left.remove(&info.id).expect("listed interface");
        assert_eq!(
            (&info.name, info.version, &info.developer, info.created_at.timestamp(), &info.default_op),
            (&i.name, i.version, &i.developer, i.timestamp, &i.default_operation),
            "listed interface"
        );
        let parents: Vec<_> =
            i.inherits.iter().map(|p| names.get(p).cloned().map_or(IfaceRef::Id(*p), IfaceRef::Name)).collect();
        assert_eq!(info.inherits, parents, "parents listed");
        // the class and features are ones of some supplement
        let notes: Vec<_> = stash
            .supplements(ContentRef::Iface(info.id))
            .expect("supplements")
            .map(|u| {
                (
                    u.get_default_opt::<IfaceClassName>(SupplSub::Itself, SUPPL_ANNOT_IFACE_CLASS),
                    u.get_default_opt::<FeatureList>(SupplSub::Itself, SUPPL_ANNOT_IFACE_FEATURES).unwrap_or_default(),
                )
            })
            .collect();
        let listed = (info.standard.clone(), info.features.clone());
        assert!(notes.contains(&listed) || notes.is_empty() && listed == none(), "class and features {listed:?} of {notes:?}");
        assert!(info.to_string().contains(&info.id.to_string()), "printed interface");
    }
    assert!(left.is_empty(), "interfaces not listed");
    let mut left: BTreeMap<_, _> = stash.schemata().expect("schemata").map(|s| (s.schema.schema_id(), s)).collect();
    for info in stock.schemata().expect("listed schemata") {
        let s = left.remove(&info.id).expect("listed schema");
        assert_eq!(
            (&info.name, &info.developer, info.created_at.timestamp()),
            (&s.schema.name, &s.schema.developer, s.schema.timestamp),
            "listed schema"
        );
        let impls: BTreeMap<_, _> = s.iimpls.iter().map(|(name, i)| (i.impl_id(), (name, i))).collect();
        assert_eq!(info.implements.len(), impls.len(), "number of implementations");
        for m in &info.implements {
            let (name, i) = impls.get(&m.id).expect("listed implementation");
            assert_eq!(
                (&m.iface_name, m.iface_id, &m.developer, m.created_at.timestamp()),
                (*name, i.iface_id, &i.developer, i.timestamp),
                "listed implementation"
            );
        }
        assert!(info.to_string().contains(&info.id.to_string()), "printed schema");
    }
    assert!(left.is_empty(), "schemata not listed");
    let mut left: BTreeMap<_, _> = stash.geneses().expect("contracts").map(|g| (g.contract_id(), g)).collect();
    for info in stock.contracts().expect("listed contracts") {
        let g = left.remove(&info.id).expect("listed contract");
        assert_eq!(
            (info.schema_id, &info.issuer, info.issued_at.timestamp(), info.testnet, &info.alt_layers1),
            (g.schema_id, &g.issuer, g.timestamp, g.testnet, &g.alt_layers1),
            "listed contract"
        );
        assert_eq!(stock.contract_info(info.id).expect("listed contract"), info, "contract by its id");
        assert!(info.to_string().contains(&info.id.to_string()), "printed contract");
    }
    assert!(left.is_empty(), "contracts not listed");
}

fn run(c: &Value) -> Value {
    let mut stock = Stock::in_memory();
    let mut ret = vec![];
    for k in c["kits"].as_array().expect("kits") {
        let k = kit(k).validate().expect("valid kit");
        ret.push(json!(stock.import_kit(k).is_ok()));
    }
    listings(&stock);
    json!({"ret": ret, "see": see(&stock)})
}

// -------------------------------------------------------------------- signatures

const OWN_TYPE: &str = "RGBContract.AssetSpec";
struct Signed {
    w: World,
    contents: BTreeMap<&'static str, (ContentId, ContentRef)>,
    contract: Contract,
}
fn signed() -> &'static Signed {
    static S: OnceLock<Signed> = OnceLock::new();
    S.get_or_init(|| {
        let spec = json!({"order": ["g"], "funding": ["f0"], "contracts": {"A": {"genesis": "g", "schema": 0}},
            "ops": {"g": {"contract": "A", "kind": "genesis", "assigns": [{"ty": "A", "tx": "f0", "vout": 0, "m": "T", "val": 5}]}},
            "bundles": {}, "witnesses": {}});
        let w = World::build(serde_json::from_value(spec).expect("world"));
        let mut contract = w.consignment::<false>(&ConsView { contract: s("A"), iface: true, ..ConsView::default() });
        let id = w.contracts["A"];
        let schema_id = contract.schema.schema_id();
        // the interface has a type which the schema does not have
        let mut face = iface();
        face.metadata.insert(fname("own"), types().get(OWN_TYPE)).expect("metadata");
        let mut imp = iimpl(schema_id);
        imp.iface_id = face.iface_id();
        let (iface_id, impl_id) = (face.iface_id(), imp.impl_id());
        contract.ifaces = Confined::try_from_iter([(face, imp)]).expect("interfaces");
        let other = SchemaId::from(h32("other"));
        let contents = [
            ("genesis", (ContentId::Genesis(id), ContentRef::Genesis(id))),
            ("schema", (ContentId::Schema(schema_id), ContentRef::Schema(schema_id))),
            ("iface", (ContentId::Iface(iface_id), ContentRef::Iface(iface_id))),
            ("impl", (ContentId::IfaceImpl(impl_id), ContentRef::IfaceImpl(impl_id))),
            ("other", (ContentId::Schema(other), ContentRef::Schema(other))),
        ]
        .into();
        Signed { w, contents, contract }
    })
}

fn identity(n: &str) -> Identity { Identity::from_str(&format!("ssi:{n}")).expect("identity") }
fn blob(v: &str) -> SigBlob { SigBlob::from(NonEmptyBlob::<4096>::try_from(v.as_bytes().to_vec()).expect("signature")) }
fn suppl(c: ContentRef, v: &str) -> Supplement {
    let mut u = Supplement {
        content_id: c,
        timestamp: 1700000000,
        creator: identity(&format!("creator{v}")),
        annotations: none(),
    };
    u.annotate_itself("Note", &VelocityHint::Frequent).expect("annotation");
    if let ContentRef::Iface(_) = c {
        let class = IfaceClassName::from_str(&format!("Class{v}")).expect("class");
        u.annotate_itself(SUPPL_ANNOT_IFACE_CLASS, &class).expect("annotation");
        let features = FeatureList::from(set([fname("one"), fname(&format!("feature{v}"))]));
        u.annotate_itself(SUPPL_ANNOT_IFACE_FEATURES, &features).expect("annotation");
    }
    u
}
fn sig_names(sigs: impl IntoIterator<Item = (ContentId, ContentSigs)>) -> Value {
    let mut res = vec![];
    for (c, l) in sigs {
        let name = signed().contents.iter().find(|(_, x)| x.0 == c).map(|(n, _)| *n).unwrap_or("?");
        for (id, sig) in l {
            let id = id.to_string();
            res.push(json!([name, id.strip_prefix("ssi:").unwrap_or(&id), String::from_utf8_lossy(sig.as_slice())]));
        }
    }
    sorted(res)
}
fn suppl_names(l: impl IntoIterator<Item = Supplement>) -> Vec<(&'static str, String)> {
    l.into_iter()
        .map(|u| {
            let name = signed().contents.iter().find(|(_, x)| x.1 == u.content_id).map(|(n, _)| *n).unwrap_or("?");
            let v = ["1", "2"].into_iter().find(|v| suppl(u.content_id, v) == u).unwrap_or("?");
            (name, s(v))
        })
        .collect()
}

fn import(stock: &mut Stock, via: &str, sigs: TinyOrdMap<ContentId, ContentSigs>, suppl: TinyOrdSet<Supplement>) {
    match via {
        "kit" => {
            let kit = Kit { signatures: sigs, supplements: suppl, ..Kit::default() };
            stock.import_kit(kit.validate().expect("valid kit")).expect("kit imported");
        }
        _ => {
            let mut contract = signed().contract.clone();
            contract.signatures = sigs;
            contract.supplements = suppl;
            let chain = signed().w.chain(&none());
            let contract = contract.validate(&chain, true).map_err(|e| e.0).expect("valid contract");
            stock.import_contract(contract, &chain).expect("contract imported");
        }
    }
}

/// Imports something implementing an interface which is not known, signed and supplemented.
fn refuse(stock: &mut Stock, via: &str) {
    let all = signed();
    let (id, re) = all.contents["genesis"];
    let sigs = Confined::try_from_iter([(identity("a"), blob("1"))]).unwrap();
    let sigs = Confined::try_from_iter([(id, ContentSigs::from(sigs))]).unwrap();
    let suppls = set([suppl(re, "1")]);
    match via {
        "kit" => {
            let mut imp = iimpl(all.contract.schema.schema_id());
            imp.iface_id = IfaceId::from(h32("nobody"));
            let kit = Kit { signatures: sigs, supplements: suppls, iimpls: set([imp]), ..Kit::default() };
            stock.import_kit(kit.validate().expect("valid kit")).expect_err("kit refused");
        }
        _ => {
            let mut contract = all.contract.clone();
            contract.signatures = sigs;
            contract.supplements = suppls;
            let (face, mut imp) = contract.ifaces.release().pop_first().expect("interface");
            imp.iface_id = IfaceId::from(h32("nobody"));
            contract.ifaces = Confined::try_from_iter([(face, imp)]).expect("interfaces");
            let chain = all.w.chain(&none());
            let contract = contract.validate(&chain, true).map_err(|e| e.0).expect("valid contract");
            stock.import_contract(contract, &chain).expect_err("contract refused");
        }
    }
}

fn sign(c: &Value) -> Value {
    let all = signed();
    let mut stock = Stock::in_memory();
    import(&mut stock, "contract", none(), none());
    for x in c["steps"].as_array().expect("steps") {
        let content = |n: &str| all.contents[n];
        match text(x, "op") {
            "trust" => {
                let level = match text(x, "v") {
                    "malicious" => TrustLevel::Malicious,
                    "untrusted" => TrustLevel::Untrusted,
                    _ => TrustLevel::Trusted,
                };
                stock.as_stash_provider_mut().set_trust(identity(text(x, "id")), level).expect("trust is set");
                assert_eq!(stock.as_stash_provider().get_trust(&identity(text(x, "id"))), Ok(level), "trust");
            }
            "sign" => {
                let sigs = Confined::try_from_iter([(identity(text(x, "id")), blob(text(x, "v")))]).unwrap();
                let sigs = Confined::try_from_iter([(content(text(x, "c")).0, ContentSigs::from(sigs))]).unwrap();
                import(&mut stock, text(x, "via"), sigs, none());
            }
            "fail" => refuse(&mut stock, text(x, "via")),
            _ => import(&mut stock, text(x, "via"), none(), set([suppl(content(text(x, "c")).1, text(x, "v"))])),
        }
    }
    let id = all.w.contracts["A"];
    let contract = stock.export_contract(id).expect("contract exported");
    let export = sig_names(contract.signatures.clone());
    for (face, _) in &contract.ifaces {
        assert!(face.types().all(|t| contract.types.get(t).is_some()), "types of the exported interface");
    }
    let stash = stock.as_stash_provider();
    let mut known = vec![];
    let mut suppls = vec![];
    for (a, b) in all.contents.values() {
        known.extend(stash.sigs_for(a).expect("signatures").map(|s| (*a, s.clone())));
        suppls.extend(suppl_names(stash.supplements(*b).expect("supplements")));
    }
    listings(&stock);
    // supplements which go with the contract are known ones
    let with = suppl_names(contract.supplements.clone());
    assert!(with.iter().all(|u| suppls.contains(u)), "supplements of the exported contract");
    // everything exported is taken over elsewhere
    let mut fresh = Stock::in_memory();
    let chain = all.w.chain(&none());
    fresh
        .import_contract(contract.clone().validate(&chain, true).map_err(|e| e.0).expect("valid contract"), &chain)
        .expect("contract imported");
    let again = fresh.export_contract(id).expect("contract exported");
    assert_eq!(again.signatures, contract.signatures, "signatures exported again");
    assert_eq!(again.supplements, contract.supplements, "supplements exported again");
    json!({"known": sig_names(known), "suppl": sorted(suppls.into_iter().map(|(c, v)| json!([c, v])).collect()),
        "export": export, "with": sorted(with.into_iter().map(|u| json!(u.0)).collect())})
}

/// Order means something only in the results of imports.
fn normal(v: &Value) -> Value {
    match v {
        Value::Array(a) if a.iter().all(|x| x.is_string()) && a.len() < 4 && a.iter().any(|x| x == "1" || x == "2") => v.clone(),
        Value::Array(a) => sorted(a.iter().map(normal).collect()),
        Value::Object(o) => Value::Object(
            o.iter().map(|(k, v)| (k.clone(), if k == "ret" { v.clone() } else { normal(v) })).collect(),
        ),
        v => v.clone(),
    }
}

pub fn call(c: &Value) -> (Value, Value) {
    let mut nc = c.clone();
    nc["out"] = json!(c["out"].as_array().expect("results").iter().map(normal).collect::<Vec<_>>());
    let got = match text(c, "f") {
        "kit.run" => attempt(|| run(c), |v| v),
        "kit.twin" => attempt(|| run(c), |v| json!({"issue": v["see"]["issue"]})),
        "kit.sign" => attempt(|| sign(c), |v| v),
        f => panic!("function {f}"),
    };
    (normal(&got), nc)
}
