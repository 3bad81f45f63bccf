//! Containers made of named parts: files, armored texts, identifiers.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::OnceLock;

use aluvm::library::{Lib, LibSeg};
use amplify::confinement::{Confined, MediumBlob, NonEmptyBlob, TinyOrdMap, TinyOrdSet};
use rgbstd::containers::*;
use rgbstd::interface::{Iface, IfaceImpl};
use rgbstd::*;
use serde_json::{json, Value};
use strict_encoding::{tn, StreamWriter, StrictEncode, StrictSerialize};
use strict_types::TypeSystem;

use crate::world::*;

fn list(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let a = |ty: &str, tx: &str, vout: u32, m: &str, val: u64| json!({"ty": ty, "tx": tx, "vout": vout, "m": m, "val": val});
        let spec = json!({
            "order": ["g1", "g2", "e1", "e2", "t1", "b1", "w1", "t2", "b2", "w2"],
            "funding": ["f", "h"],
            "contracts": {"c1": {"genesis": "g1", "schema": 0}, "c2": {"genesis": "g2", "schema": 1}},
            "ops": {
                "g1": {"contract": "c1", "kind": "genesis", "valency": true, "globals": [{"ty": "G1", "val": 5}],
                       "assigns": [a("A", "f", 1, "T", 100), a("R", "f", 2, "T", 0)]},
                "g2": {"contract": "c2", "kind": "genesis", "assigns": [a("A", "f", 1, "T", 100)]},
                "e1": {"contract": "c1", "kind": "extension", "redeems": "g1", "assigns": [a("A", "h", 1, "T", 1)]},
                "e2": {"contract": "c1", "kind": "extension", "redeems": "g1", "nonce": 7, "assigns": [a("A", "h", 2, "O", 1)]},
                "t1": {"contract": "c1", "kind": "transition", "inputs": ["g1/A/0"],
                       "assigns": [a("A", "@", 2, "O", 60), a("A", "h", 3, "T", 40)]},
                "t2": {"contract": "c1", "kind": "transition", "inputs": ["t1/A/0"], "assigns": [a("A", "@", 3, "O", 60)]},
            },
            "bundles": {
                "b1": {"contract": "c1", "m": "T", "ops": ["t1"], "map": {"0": "t1"}},
                "b2": {"contract": "c1", "m": "O", "ops": ["t2"], "map": {"0": "t2"}},
            },
            "witnesses": {"w1": {"inputs": ["f:1"], "bundles": ["b1"]}, "w2": {"inputs": ["w1:2"], "bundles": ["b2"]}},
        });
        World::build(serde_json::from_value(spec).expect("world"))
    })
}

struct Parts {
    ifaces: BTreeMap<String, Iface>,
    iimpls: BTreeMap<(String, SchemaId), IfaceImpl>,
    suppls: BTreeMap<String, Supplement>,
    names: BTreeMap<String, String>,
}
fn parts() -> &'static Parts {
    static P: OnceLock<Parts> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Parts { ifaces: none(), iimpls: none(), suppls: none(), names: none() };
        for n in 1..=3 {
            p.ifaces.insert(format!("i{n}"), make_iface(&format!("i{n}")));
        }
        for n in 1..=3 {
            for sc in ["0", "1"] {
                let id = schema(sc).schema_id();
                let mut m = iimpl(id);
                m.iface_id = p.ifaces[&format!("i{n}")].iface_id();
                if n == 3 {
                    m.developer = Identity::from_str("ssi:other").unwrap();
                }
                p.iimpls.insert((format!("m{n}"), id), m);
            }
        }
        for n in ["u1", "u2", "u3", "u4"] {
            p.suppls.insert(s(n), make_suppl(n, &p));
        }
        p.names = make_names(&p);
        p
    })
}
fn iface_no(n: &str) -> Iface { parts().ifaces[n].clone() }
fn iimpl_no(n: &str, schema_id: SchemaId) -> IfaceImpl { parts().iimpls[&(s(n), schema_id)].clone() }
fn suppl(n: &str) -> Supplement { parts().suppls[n].clone() }
fn make_iface(n: &str) -> Iface {
    let mut i = iface();
    match n {
        "i1" => i.name = tn!("FaceOne"),
        "i2" => i.name = tn!("FaceTwo"),
        _ => {
            i.name = tn!("FaceThree");
            i.developer = Identity::from_str("ssi:someone").unwrap();
        }
    }
    i
}
fn schema(n: &str) -> Schema { world().schema[&n.parse::<u8>().unwrap()].clone() }
fn kit_iimpl(n: &str) -> IfaceImpl { iimpl_no(n, schema("0").schema_id()) }
fn make_suppl(n: &str, p: &Parts) -> Supplement {
    let content: ContentRef = match n {
        "u1" => ContentRef::Schema(schema("0").schema_id()),
        "u2" => ContentRef::Genesis(world().contracts["c1"]),
        "u3" => ContentRef::Iface(p.ifaces["i1"].iface_id()),
        _ => ContentRef::IfaceImpl(p.iimpls[&(s("m1"), schema("0").schema_id())].impl_id()),
    };
    let mut s = Supplement {
        content_id: content,
        timestamp: 1700000000,
        creator: Identity::from_str("ssi:creator").unwrap(),
        annotations: none(),
    };
    s.annotate_itself("Note", &VelocityHint::Frequent).expect("annotation");
    s
}
fn none<T: Default>() -> T { T::default() }
fn script(n: &str) -> Lib {
    Lib::with("ALU", if n == "l1" { vec![0x00] } else { vec![0x01, 0x02] }, vec![], LibSeg::default()).expect("library")
}
fn attachment(n: &str) -> (AttachId, MediumBlob) {
    (AttachId::from(h32(n)), MediumBlob::try_from(format!("contents of {n}").into_bytes()).unwrap())
}
fn type_system(n: &str) -> TypeSystem {
    static ALL: OnceLock<(TypeSystem, TypeSystem)> = OnceLock::new();
    let (all, amount) = ALL.get_or_init(|| {
        let t = types();
        let all = t.type_system();
        let amount = all.extract([t.get("RGBContract.Amount")]).expect("types");
        let more = all.extract([t.get("RGBContract.Amount"), t.get("RGBContract.Allocation")]).expect("types");
        (more, amount)
    });
    match n {
        "none" => TypeSystem::default(),
        "amount" => amount.clone(),
        _ => all.clone(),
    }
}
fn content(n: &str, con: &str) -> ContentId {
    match n {
        "schema" => ContentId::Schema(schema("0").schema_id()),
        "genesis" => ContentId::Genesis(world().contracts[con]),
        "iface" => ContentId::Iface(iface_no("i1").iface_id()),
        "iimpl" => ContentId::IfaceImpl(kit_iimpl("m1").impl_id()),
        _ => ContentId::Suppl(suppl("u1").suppl_id()),
    }
}
fn sigs(v: &Value, rev: bool) -> TinyOrdMap<ContentId, ContentSigs> {
    let mut map: BTreeMap<ContentId, Vec<(Identity, SigBlob)>> = none();
    let mut all: Vec<&Value> = v.as_array().unwrap().iter().collect();
    if rev {
        all.reverse();
    }
    for x in all {
        let id = Identity::from_str(&format!("ssi:{}", x[1].as_str().unwrap())).unwrap();
        let blob = NonEmptyBlob::<4096>::try_from(vec![x[2].as_u64().unwrap() as u8; 3]).unwrap();
        map.entry(content(x[0].as_str().unwrap(), "c1")).or_default().push((id, SigBlob::from(blob)));
    }
    Confined::try_from_iter(map.into_iter().map(|(c, l)| (c, ContentSigs::from(Confined::try_from_iter(l).unwrap())))).unwrap()
}

#[derive(Clone)]
pub enum Any {
    Kit(Kit),
    Contract(Contract),
    Transfer(Transfer),
}
impl Any {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Any::Kit(x) => x.to_strict_serialized::<0xFFFFFF>().unwrap().release(),
            Any::Contract(x) => x.to_strict_serialized::<0xFFFFFF>().unwrap().release(),
            Any::Transfer(x) => x.to_strict_serialized::<0xFFFFFF>().unwrap().release(),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Any::Kit(_) => "kit",
            Any::Contract(_) => "contract",
            Any::Transfer(_) => "transfer",
        }
    }
    fn id(&self) -> String {
        match self {
            Any::Kit(x) => x.kit_id().to_string(),
            Any::Contract(x) => x.consignment_id().to_string(),
            Any::Transfer(x) => x.consignment_id().to_string(),
        }
    }
    fn universal(&self) -> UniversalFile {
        match self.clone() {
            Any::Kit(x) => UniversalFile::Kit(x),
            Any::Contract(x) => UniversalFile::Contract(x),
            Any::Transfer(x) => UniversalFile::Transfer(x),
        }
    }
}
impl From<UniversalFile> for Any {
    fn from(f: UniversalFile) -> Self {
        match f {
            UniversalFile::Kit(x) => Any::Kit(x),
            UniversalFile::Contract(x) => Any::Contract(x),
            UniversalFile::Transfer(x) => Any::Transfer(x),
        }
    }
}

fn ordered(v: &Value, rev: bool) -> Vec<String> {
    let mut l = list(v);
    l.sort();
    if rev {
        l.reverse();
    }
    l
}

fn consignment<const T: bool>(x: &Value, rev: bool) -> Consignment<T> {
    let w = world();
    let con = x["con"].as_str().unwrap();
    let mut levels: BTreeMap<String, String> = none();
    levels.insert(s(if con == "c1" { "g1/A/0" } else { "g2/A/0" }), s(x["glev"].as_str().unwrap()));
    levels.insert(s("t1/A/0"), s(x["lev"].as_str().unwrap()));
    let wbs = ordered(&x["wbs"], rev).into_iter().map(|b| WbView {
        w: b.replace('b', "w"),
        tx: b != "b1" || x["tx"].as_bool().unwrap(),
        bundles: vec![BView { b: b.clone(), ops: vec![b.replace('b', "t")] }],
    });
    let view = ConsView {
        contract: s(con),
        transfer: T,
        levels,
        wbs: wbs.collect(),
        exts: ordered(&x["exts"], rev),
        terminals: none(),
        iface: false,
    };
    let mut c = w.consignment::<T>(&view);
    let mut terms: Vec<&Value> = x["terms"].as_array().unwrap().iter().collect();
    if rev {
        terms.reverse();
    }
    for t in terms {
        let secret = if t[1] == "s1" { "t2/A/0" } else { "t1/A/1" };
        let name = w.seals.keys().find(|n| n.ends_with(&format!("#{secret}"))).expect("seal").clone();
        c.terminals.insert(w.bundles[t[0].as_str().unwrap()].bundle_id(), w.secret(&name)).unwrap();
    }
    let sid = c.schema.schema_id();
    for i in ordered(&x["ifaces"], rev) {
        c.ifaces.insert(iface_no(&i), iimpl_no(&i.replace('i', "m"), sid)).unwrap();
    }
    for u in ordered(&x["suppls"], rev) {
        c.supplements.push(suppl(&u)).unwrap();
    }
    c.types = type_system(x["types"].as_str().unwrap());
    for l in ordered(&x["scripts"], rev) {
        c.scripts.push(script(&l)).unwrap();
    }
    for a in ordered(&x["atts"], rev) {
        let (id, blob) = attachment(&a);
        c.attachments.insert(id, blob).unwrap();
    }
    c.signatures = sigs(&x["sigs"], rev);
    c
}

fn kit(x: &Value, rev: bool) -> Kit {
    let mut k = Kit::default();
    for n in ordered(&x["schemas"], rev) {
        k.schemata.push(schema(&n)).unwrap();
    }
    for n in ordered(&x["ifaces"], rev) {
        k.ifaces.push(iface_no(&n)).unwrap();
    }
    for n in ordered(&x["iimpls"], rev) {
        k.iimpls.push(kit_iimpl(&n)).unwrap();
    }
    let mut suppls = TinyOrdSet::new();
    for n in ordered(&x["suppls"], rev) {
        suppls.push(suppl(&n)).unwrap();
    }
    k.supplements = suppls;
    k.types = type_system(x["types"].as_str().unwrap());
    for l in ordered(&x["scripts"], rev) {
        k.scripts.push(script(&l)).unwrap();
    }
    k.signatures = sigs(&x["sigs"], rev);
    k
}

fn build(x: &Value, rev: bool) -> Any {
    match x["kind"].as_str().unwrap() {
        "kit" => Any::Kit(kit(x, rev)),
        "contract" => Any::Contract(consignment::<false>(x, rev)),
        _ => Any::Transfer(consignment::<true>(x, rev)),
    }
}

thread_local! {
    static FILE: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
/// A file of this thread in the scratch directory of the check.
fn scratch() -> PathBuf {
    FILE.with_borrow_mut(|f| {
        f.get_or_insert_with(|| {
            let dir = std::env::var("SCRATCH").expect("SCRATCH");
            PathBuf::from(dir).join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "_"))
        })
        .clone()
    })
}

macro_rules! each {
    ($any:expr, $x:ident => $e:expr) => {
        match $any {
            Any::Kit($x) => $e,
            Any::Contract($x) => $e,
            Any::Transfer($x) => $e,
        }
    };
}

fn write(a: &Any, form: &str) -> Vec<u8> {
    let file = scratch();
    match form {
        "binary" => {
            let mut v = vec![];
            each!(a, x => x.save(&mut v)).expect("save");
            v
        }
        "universal" => {
            let mut v = vec![];
            a.universal().save(&mut v).expect("save");
            v
        }
        "file" => {
            each!(a, x => x.save_file(&file)).expect("save");
            std::fs::read(&file).unwrap()
        }
        "universalfile" => {
            a.universal().save_file(&file).expect("save");
            std::fs::read(&file).unwrap()
        }
        "text" => each!(a, x => x.to_string()).into_bytes(),
        "universaltext" => a.universal().to_string().into_bytes(),
        "armored" => {
            each!(a, x => x.save_armored(&file)).expect("save");
            std::fs::read(&file).unwrap()
        }
        f => panic!("form {f}"),
    }
}

fn read(data: &[u8], reader: &str, asked: &str) -> Option<Any> {
    let file = scratch();
    if matches!(reader, "loadfile" | "universalfile" | "loadarmored") {
        std::fs::write(&file, data).unwrap();
    }
    macro_rules! by_kind {
        ($t:ident => $e:expr) => {
            match asked {
                "kit" => {
                    type $t = Kit;
                    $e.map(Any::Kit)
                }
                "contract" => {
                    type $t = Contract;
                    $e.map(Any::Contract)
                }
                _ => {
                    type $t = Transfer;
                    $e.map(Any::Transfer)
                }
            }
        };
    }
    match reader {
        "load" => by_kind!(X => X::load(data).ok()),
        "loadfile" => by_kind!(X => X::load_file(&file).ok()),
        "loadarmored" => by_kind!(X => X::load_armored(&file).ok()),
        "parse" => {
            let text = String::from_utf8(data.to_vec()).ok()?;
            by_kind!(X => X::from_str(&text).ok())
        }
        "universal" => UniversalFile::load(data).ok().map(Any::from),
        "universalfile" => UniversalFile::load_file(&file).ok().map(Any::from),
        r => panic!("reader {r}"),
    }
}

fn make_names(p: &Parts) -> BTreeMap<String, String> {
    let w = world();
    let mut names: BTreeMap<String, String> = none();
    for (n, c) in &w.contracts {
        names.insert(c.to_string(), n.clone());
    }
    for n in ["0", "1"] {
        let sc = schema(n);
        names.insert(sc.schema_id().to_string(), s(n));
        names.insert(sc.name.to_string(), s(n));
        names.insert(format!("{:-}", sc.schema_id()), s(n));
    }
    for n in ["i1", "i2", "i3"] {
        names.insert(p.ifaces[n].name.to_string(), s(n));
        names.insert(format!("{:-}", p.ifaces[n].iface_id()), s(n));
    }
    for n in ["m1", "m2", "m3"] {
        names.insert(format!("{:-}", p.iimpls[&(s(n), schema("0").schema_id())].impl_id()), s(n));
    }
    for n in ["u1", "u2", "u3", "u4"] {
        names.insert(format!("{:-}", p.suppls[n].suppl_id()), s(n));
    }
    for n in ["b1", "b2"] {
        names.insert(w.bundles[n].bundle_id().to_string(), s(n));
    }
    for n in ["l1", "l2"] {
        names.insert(script(n).id().to_string(), s(n));
    }
    for n in ["none", "amount", "all"] {
        names.insert(type_system(n).id().to_string(), s(n));
    }
    names
}

/// Values of the armor headers by names of the parts.
fn headers(text: &str, a: &Any) -> Vec<Value> {
    let names = &parts().names;
    let own = a.id();
    let mut lines: Vec<String> = vec![];
    for l in text.lines().skip(1).take_while(|l| !l.is_empty()) {
        match l.strip_prefix(['\t', ' ']) {
            Some(more) => lines.last_mut().expect("header").push_str(&format!(" {}", more.trim())),
            None => lines.push(s(l)),
        }
    }
    let mut res = vec![];
    let name = |v: &str| if v == own { s("own") } else { names.get(v).cloned().unwrap_or_else(|| s(v)) };
    for l in lines {
        let (title, rest) = l.split_once(':').expect("title");
        if title == "Check-SHA256" {
            continue;
        }
        let mut parts = rest.split(';').map(str::trim);
        let values: Vec<String> = parts.next().unwrap().split(',').map(|v| name(v.trim())).collect();
        let mut suppls = vec![];
        for p in parts {
            let (k, v) = p.split_once('=').expect("parameter");
            match k.trim() {
                "suppl" => suppls.push(name(v)),
                "id" => assert_eq!(vec![name(v)], values, "identifier of other content"),
                "interface" => assert_eq!(name(v), values[0].replace('m', "i"), "other interface"),
                "schema" => assert_eq!(name(v), "0", "other schema"),
                "dev" => {
                    let dev = match values[0].as_str() {
                        "i3" => "ssi:someone",
                        "m3" => "ssi:other",
                        _ => "ssi:anonymous",
                    };
                    assert_eq!(v, dev, "other developer")
                }
                k => panic!("unknown parameter {k}"),
            }
        }
        for v in values {
            res.push(json!([title, v, suppls]));
        }
    }
    res
}


fn sorted(v: &Value) -> Value {
    let mut l: Vec<Value> = v.as_array().cloned().unwrap_or_default();
    l.sort_by_key(|x| x.to_string());
    Value::Array(l)
}

fn digest(data: &[u8]) -> String {
    use commit_verify::{Digest, Sha256};
    Sha256::digest(data).iter().map(|b| format!("{b:02x}")).collect()
}

fn tx_bytes(tx: &bp::Tx) -> Vec<u8> {
    let mut v = vec![];
    tx.strict_write(StreamWriter::new::<0xFFFFFF>(&mut v)).unwrap();
    v
}

/// Whether the position is within a witness transaction: lengths of its lists are not limited by
/// the decoder (see the known finding), thus they are not damaged at random.
fn within_tx(data: &[u8], at: usize) -> bool {
    world().txs.values().any(|tx| {
        let tx = tx_bytes(tx);
        data.windows(tx.len()).position(|w| w == tx.as_slice()).is_some_and(|p| (p..p + tx.len()).contains(&at))
    })
}

/// Damages a binary file.
fn damage_binary(data: &[u8], kind: &str, d: &str, at: usize) -> Vec<u8> {
    let mut v = data.to_vec();
    let n = v.len();
    match d {
        "flip" | "set" if within_tx(data, 7 + at % (n - 7)) => {}
        "inputs" => {
            // number of the inputs of the first witness transaction
            let tx = tx_bytes(&world().txs["w1"]);
            if let Some(p) = data.windows(tx.len()).position(|w| w == tx.as_slice()) {
                v[p + 4..p + 8].copy_from_slice(&[0xFF; 4]);
            }
        }
        "magic" => v[at] ^= 1 << at,
        "cut" => v.truncate(at % n),
        "cutend" => v.truncate(n - at % n),
        "flip" => v[7 + at % (n - 7)] ^= 1 << (at % 8),
        "set" => v[7 + at % (n - 7)] = if v[7 + at % (n - 7)] == 0xFF { 0 } else { 0xFF },
        "version" => v[7] = at as u8,
        // after the version goes the flag telling transfers from contracts
        "flag" if kind == "kit" => v.truncate(8),
        "flag" => v[8] = if at == 0 { 1 - v[8] } else { at as u8 },
        "empty" => v.clear(),
        "text" => v = String::from("-----BEGIN RGB CONSIGNMENT-----").into_bytes(),
        "label" => {
            let other: &[u8] = match (at, kind) {
                (0, "contract") => b"TFR",
                (0, _) => b"CON",
                (1, _) => b"KIT",
                _ => b"con",
            };
            v[4..7].copy_from_slice(other);
        }
        d => panic!("damage {d}"),
    }
    v
}

/// Damages an armored text.
fn damage_text(text: &str, x: &Value, a: &Any, d: &str, at: usize) -> String {
    let lines: Vec<String> = text.lines().map(s).collect();
    let blank = lines.iter().position(|l| l.is_empty()).expect("blank line");
    let mut head: Vec<String> = lines[..blank].to_vec();
    let mut body: Vec<String> = lines[blank + 1..].iter().take_while(|l| !l.is_empty()).cloned().collect();
    let end = lines.last().unwrap().clone();
    let header = |head: &[String], t: &str| head.iter().position(|l| l.starts_with(&format!("{t}:"))).expect("header");
    let other_char = |c: char| if c == 'a' { 'b' } else { 'a' };
    let replace = |l: &str, i: usize| -> String {
        l.chars().enumerate().map(|(j, c)| if i == j { other_char(c) } else { c }).collect()
    };
    let n = body.len();
    let total: usize = body.iter().map(String::len).sum();
    let locate = |mut p: usize| {
        let mut i = 0;
        while p >= body[i].len() {
            p -= body[i].len();
            i += 1;
        }
        (i, p)
    };
    match d {
        "none" => {}
        "char" => {
            let (i, p) = locate(at % total);
            body[i] = replace(&body[i], p);
        }
        "dropchar" => {
            let (i, p) = locate(at % total);
            body[i].remove(p);
        }
        "dropline" => {
            body.remove(at % n);
        }
        "swaplines" => body.swap(at % n, (at + 1) % n),
        "addline" => {
            let l = body[at % n].clone();
            body.insert(at % n, l);
        }
        "checksum" => {
            let i = header(&head, "Check-SHA256");
            let l = head[i].clone();
            head[i] = replace(&l, "Check-SHA256: ".len() + at);
        }
        "id" => {
            let i = header(&head, "Id");
            let l = head[i].clone();
            head[i] = replace(&l, "Id: ".len() + at % (l.len() - 4));
        }
        "otherid" => {
            let mut y = x.clone();
            y["types"] = json!(if x["types"] == "all" { "none" } else { "all" });
            let i = header(&head, "Id");
            head[i] = format!("Id: {}", build(&y, false).id());
        }
        "noid" => {
            head.remove(header(&head, "Id"));
        }
        "twoids" => {
            let i = header(&head, "Id");
            head[i] = format!("Id: {}, {}", a.id(), a.id());
        }
        "emptyid" => {
            let i = header(&head, "Id");
            head[i] = s("Id:");
        }
        "nobegin" => {
            head.remove(0);
        }
        "emptybody" => body.clear(),
        "nothing" => return s(""),
        "endonly" => return end,
        "title" => {
            let t = if a.kind() == "kit" { "RGB CONSIGNMENT" } else { "RGB KIT" };
            head[0] = format!("-----BEGIN {t}-----");
        }
        "payload" => {
            // payload of another container with its own checksum
            let mut y = x.clone();
            y["types"] = json!(if x["types"] == "all" { "none" } else { "all" });
            let b = build(&y, false);
            let t = each!(&b, x => x.to_string());
            let i = header(&head, "Check-SHA256");
            head[i] = format!("Check-SHA256: {}", digest(&b.bytes()));
            body = t.lines().skip_while(|l| !l.is_empty()).skip(1).take_while(|l| !l.is_empty()).map(s).collect();
        }
        "truncated" => {
            let keep = text.find(&body[n / 2]).unwrap() + body[n / 2].len() / 2;
            return s(&text[..keep]);
        }
        "noend" => return [head, vec![s("")], body, vec![s("")]].concat().join("\n"),
        "nochecksum" => {
            head.remove(header(&head, "Check-SHA256"));
        }
        "noblank" => return [head, body, vec![s(""), end]].concat().join("\n"),
        "type" => {
            if let Some(i) = head.iter().position(|l| l.starts_with("Type:")) {
                head[i] = if a.kind() == "contract" { s("Type: transfer") } else { s("Type: contract") };
            }
        }
        "crlf" => return text.replace('\n', "\r\n"),
        "prologue" => return format!("Hello,\n\nhere it is: see below\n{text}"),
        "epilogue" => return format!("{text}\nBye: me\n"),
        d => panic!("damage {d}"),
    }
    [head, vec![s("")], body, vec![s(""), end]].concat().join("\n") + "\n"
}

/// Runs the case in a process with limited memory.
fn in_child(c: &Value) -> Value {
    let path = scratch().with_extension("json");
    let dir = scratch().with_extension("dir");
    std::fs::create_dir_all(&dir).expect("scratch directory");
    std::fs::write(&path, c.to_string()).expect("scratch file");
    let out = std::process::Command::new("sh")
        .arg("-c")
        .arg("ulimit -v 8000000; ulimit -c 0; exec \"$0\" one \"$1\"")
        .arg(std::env::current_exe().expect("own path"))
        .arg(&path)
        .env("CHILD", "1")
        .env("SCRATCH", &dir)
        .output()
        .expect("child process");
    match serde_json::from_slice(&out.stdout) {
        Ok(v) if out.status.success() => v,
        _ => json!("process aborted"),
    }
}

pub fn call(c: &Value) -> (Value, Value) {
    let x = &c["x"];
    let str = |n: &str| c[n].as_str().unwrap();
    let outcome = |r: Option<Any>, a: &Any, asked: &str| match r {
        None => "refused",
        Some(b) if b.kind() != asked => "foreign",
        Some(b) if b.bytes() == a.bytes() && b.kind() == a.kind() => {
            if b.id() == a.id() {
                "same"
            } else {
                "renamed"
            }
        }
        Some(_) => "other",
    };
    match str("f") {
        "container.io" => {
            let a = build(x, false);
            let data = write(&a, str("form"));
            let r = outcome(read(&data, str("reader"), str("asked")), &a, str("asked"));
            let mut case = c.clone();
            case["out"][0]["headers"] = sorted(&c["out"][0]["headers"]);
            let h = match str("form") {
                "text" | "armored" | "universaltext" => {
                    sorted(&Value::Array(headers(&String::from_utf8(data).expect("text"), &a)))
                }
                _ => json!([]),
            };
            (json!({"read": r, "headers": h}), case)
        }
        "container.bad" => {
            let a = build(x, false);
            let (d, at) = (str("d"), c["at"].as_u64().unwrap() as usize);
            if d == "inputs" && std::env::var_os("CHILD").is_none() {
                return (in_child(c), c.clone());
            }
            let data = write(&a, str("form"));
            let bad = match str("form") {
                "binary" | "file" => damage_binary(&data, a.kind(), d, at),
                _ => damage_text(&String::from_utf8(data.clone()).unwrap(), x, &a, d, at).into_bytes(),
            };
            if bad == data && !matches!(d, "none") {
                // nothing to damage there
                return (c["out"][0].clone(), c.clone());
            }
            (json!(outcome(read(&bad, str("reader"), a.kind()), &a, a.kind())), c.clone())
        }
        "container.id" => (json!(build(x, c["rev"].as_bool().unwrap()).id()), c.clone()),
        f => panic!("unknown function {f}"),
    }
}
