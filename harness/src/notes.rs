//! Annotations of supplements, descriptions of assets and contracts.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::OnceLock;

use amplify::confinement::SmallBlob;
use amplify::{Bytes32, Wrapper};
use bp::Vout;
use rgbstd::containers::*;
use rgbstd::invoice::Precision;
use rgbstd::stl::{
    Article, AssetSpec, Attachment, ContractSpec, ContractTerms, Details, MediaRegName, MediaType, Name, ProofOfReserves,
    RicardianContract, Ticker,
};
use rgbstd::{Identity, Outpoint, SchemaId, Txid};
use serde_json::{json, Value};
use strict_encoding::{FieldName, StrictDeserialize, StrictSerialize, TypeName, VariantName};
use strict_types::{StrictVal, TypeSystem};

use crate::cases::attempt;
use crate::world::*;

fn text<'a>(v: &'a Value, n: &str) -> &'a str { v[n].as_str().unwrap_or_else(|| panic!("{n} of {v}")) }
fn sorted(mut v: Vec<Value>) -> Value {
    v.sort_by_key(|x| x.to_string());
    json!(v)
}

// ---------------------------------------------------------------- annotations

const SUBS: [(&str, SupplSub); 3] =
    [("Itself", SupplSub::Itself), ("Global", SupplSub::Global), ("Exception", SupplSub::Exception)];
const ITEMS: [&str; 6] = ["default", "no1", "no2", "type", "field", "variant"];
const NAMES: [&str; 3] = ["Note", "Other", "Never"];

fn sub(n: &str) -> SupplSub { SUBS.iter().find(|(m, _)| *m == n).expect("subject").1 }
fn item(n: &str) -> SupplItem {
    match n {
        "default" => SupplItem::Default,
        "no1" => SupplItem::TypeNo(1),
        "no2" => SupplItem::TypeNo(2),
        "type" => SupplItem::TypeName(TypeName::from("Same")),
        "field" => SupplItem::FieldName(FieldName::from("same")),
        _ => SupplItem::VariantName(VariantName::from("same")),
    }
}

fn hint(v: &str) -> VelocityHint { if v == "a" { VelocityHint::Frequent } else { VelocityHint::Seldom } }
fn words() -> RicardianContract { RicardianContract::from_str("words of another type").expect("words") }
fn huge() -> &'static RicardianContract {
    static HUGE: OnceLock<RicardianContract> = OnceLock::new();
    HUGE.get_or_init(|| RicardianContract::from_str(&"w".repeat(65535)).expect("huge text"))
}

fn annotations(u: &Supplement) -> Vec<Value> {
    let mut res = vec![];
    for (s, sub) in SUBS {
        for i in ITEMS {
            for n in NAMES {
                let got = u.get::<VelocityHint>(sub, item(i), n);
                if i == "default" {
                    assert_eq!(format!("{:?}", u.get_default::<VelocityHint>(sub, n)), format!("{got:?}"), "default item");
                    let ok = got.as_ref().and_then(|r| r.as_ref().ok()).copied();
                    assert_eq!(u.get_default_opt::<VelocityHint>(sub, n), ok, "value of the default item");
                }
                let v = match got {
                    None => continue,
                    Some(Ok(v)) => ["a", "b"].into_iter().find(|x| hint(x) == v).unwrap_or("?"),
                    Some(Err(_)) => match u.get::<RicardianContract>(sub, item(i), n) {
                        Some(Ok(t)) if t == words() => "text",
                        _ => "?",
                    },
                };
                res.push(json!([s, i, n, v]));
            }
        }
    }
    res
}

fn empty() -> Supplement {
    Supplement::new(SchemaId::from(h32("content")), Identity::from_str("ssi:creator").expect("identity"))
}
fn filled() -> Supplement {
    let mut u = empty();
    u.annotate_itself("Note", &hint("a")).expect("annotated");
    for n in 0..254 {
        let name = AnnotationName::from_str(&format!("Name{n}")).expect("name");
        u.annotate_itself(name, &hint("b")).expect("annotated");
    }
    u
}

fn run(c: &Value) -> Value {
    static FULL: OnceLock<Supplement> = OnceLock::new();
    let full = c["full"].as_bool().expect("full");
    let mut u = if full { FULL.get_or_init(filled).clone() } else { empty() };
    let mut ret = vec![];
    for x in c["calls"].as_array().expect("calls") {
        let name = AnnotationName::from_str(text(x, "name")).expect("name");
        macro_rules! call {
            ($v:expr) => {
                match text(x, "by") {
                    "itself" => u.annotate_itself(name, $v),
                    "default" => u.annotate_default(sub(text(x, "sub")), name, $v),
                    _ => u.annotate(sub(text(x, "sub")), item(text(x, "item")), name, $v),
                }
            };
        }
        let r = match text(x, "v") {
            "huge" => call!(huge()),
            "text" => call!(&words()),
            v => call!(&hint(v)),
        };
        ret.push(match r {
            Ok(true) => "replaced",
            Ok(false) => "new",
            Err(_) => "refused",
        });
    }
    let see = annotations(&u);
    if full {
        let many = u.annotations.get(&SupplSub::Itself).and_then(|a| a.get(&SupplItem::Default)).map_or(0, |a| a.len());
        assert_eq!(many, 255, "number of annotations");
        assert_eq!(u.get_default_opt(SupplSub::Itself, "Name7"), Some(hint("b")), "another annotation");
    }
    let bytes = u.to_strict_serialized::<{ usize::MAX }>().expect("serialized");
    let again = Supplement::from_strict_serialized::<{ usize::MAX }>(bytes).expect("deserialized");
    assert_eq!(again, u, "read back");
    assert_eq!(again.suppl_id(), u.suppl_id(), "id");
    json!({"ret": ret, "see": sorted(see)})
}

// --------------------------------------------------------------- descriptions

fn letter(class: &str) -> char {
    match class {
        "upper" => 'Q',
        "lower" => 'k',
        "digit" => '7',
        "dash" => '-',
        "plus" => '+',
        "space" => ' ',
        "tilde" => '~',
        "slash" => '/',
        "control" => '\u{1f}',
        "delete" => '\u{7f}',
        _ => 'é',
    }
}
fn make_text(t: &Value) -> String {
    let len = t["len"].as_u64().expect("length") as usize;
    let only = t["only"].as_bool().expect("flag");
    (0..len)
        .map(|i| match i {
            0 => letter(text(t, "first")),
            i if only && i + 1 < len => 'k',
            _ => letter(text(t, "rest")),
        })
        .collect()
}

/// The value as it is read from a state of contract.
fn state<T: StrictSerialize + StrictDeserialize + PartialEq + std::fmt::Debug>(ty: &'static str, v: &T) -> StrictVal {
    let bytes = v.to_strict_serialized::<{ usize::MAX }>().expect("serialized");
    let back = T::from_strict_serialized::<{ usize::MAX }>(bytes.clone()).expect("deserialized");
    assert_eq!(&back, v, "value read back");
    let sys = {
        static ALL: OnceLock<TypeSystem> = OnceLock::new();
        ALL.get_or_init(|| types().type_system())
    };
    sys.strict_deserialize_type(types().get(ty), bytes.as_slice()).expect("typed value").unbox()
}

/// Both ways of making a text agree.
fn both<T: FromStr + TryFrom<String> + PartialEq + std::fmt::Debug>(t: &str) -> Option<T> {
    let a = T::from_str(t).ok();
    let b = T::try_from(t.to_string()).ok();
    assert_eq!(a, b, "text made differently");
    a
}

fn make(c: &Value) -> Value {
    let q: Vec<Option<String>> = c["q"].as_array().expect("fields").iter().map(|x| x.get(0).map(make_text)).collect();
    let p = c["p"].as_u64().expect("precision") as u8;
    let precision = Precision::try_from(p).expect("precision");
    let req = |i: usize| q[i].as_deref().expect("text");
    let opt = |i: usize| q[i].as_deref();
    // what is read back: texts and precision
    let read: Option<(Vec<Option<String>>, u8)> = match text(c, "kind") {
        "asset" => {
            let each = both::<Ticker>(req(0)).is_some()
                && both::<Name>(req(1)).is_some()
                && opt(2).is_none_or(|d| both::<Details>(d).is_some());
            let made = AssetSpec::with(req(0), req(1), precision, opt(2)).ok();
            assert_eq!(made.is_some(), each, "whole and parts");
            made.map(|x| {
                let y = AssetSpec::from_strict_val_unchecked(&state("RGBContract.AssetSpec", &x));
                let f = |x: &AssetSpec| (vec![Some(s(x.ticker())), Some(s(x.name())), x.details().map(s)], x.precision as u8);
                assert_eq!(f(&x), f(&y), "read from the state");
                assert_eq!(x, y, "read from the state");
                assert_eq!(x.ticker.to_string(), x.ticker(), "printed");
                f(&y)
            })
        }
        "contract" => {
            let each = both::<Article>(req(0)).is_some()
                && both::<Name>(req(1)).is_some()
                && opt(2).is_none_or(|d| both::<Details>(d).is_some());
            let made = ContractSpec::with(req(0), req(1), precision, opt(2)).ok();
            assert_eq!(made.is_some(), each, "whole and parts");
            made.map(|mut x| {
                let y = ContractSpec::from_strict_val_unchecked(&state("RGBContract.ContractSpec", &x));
                assert_eq!(x, y, "read from the state");
                let res = (vec![y.article().map(s), Some(s(y.name())), y.details().map(s)], y.precision as u8);
                x.article = None;
                let y = ContractSpec::from_strict_val_unchecked(&state("RGBContract.ContractSpec", &x));
                assert_eq!(x, y, "read from the state without an article");
                res
            })
        }
        "media" => {
            let ty = both::<MediaRegName>(req(0));
            let subtype = opt(1).map(both::<MediaRegName>);
            let charset = opt(2).map(both::<MediaRegName>);
            match (ty, subtype, charset) {
                (None, _, _) | (_, Some(None), _) | (_, _, Some(None)) => None,
                (Some(ty), subtype, charset) => {
                    let x = MediaType { ty, subtype: subtype.flatten(), charset: charset.flatten() };
                    assert_eq!(x.to_string(), format!("{}/{}", req(0), opt(1).unwrap_or("*")), "printed");
                    if x.charset.is_none() {
                        let fixed: &'static str = Box::leak(x.to_string().into_boxed_str());
                        assert_eq!(MediaType::with(fixed), x, "made from its text");
                    }
                    let y = MediaType::from_strict_val_unchecked(&state("RGBContract.MediaType", &x));
                    assert_eq!(x, y, "read from the state");
                    let a = Attachment { ty: x, digest: Bytes32::from_inner(h32("digest")) };
                    let b = Attachment::from_strict_val_unchecked(&state("RGBContract.Attachment", &a));
                    assert_eq!(a, b, "attachment read from the state");
                    Some((vec![Some(y.ty.to_string()), y.subtype.map(|t| t.to_string()), y.charset.map(|t| t.to_string())], p))
                }
            }
        }
        _ => RicardianContract::from_str(req(0)).ok().map(|t| {
            let media = Attachment { ty: MediaType::with("text/*"), digest: Bytes32::from_inner(h32("terms")) };
            let mut res = vec![];
            for media in [None, Some(media)] {
                let x = ContractTerms { text: t.clone(), media };
                let y = ContractTerms::from_strict_val_unchecked(&state("RGBContract.ContractTerms", &x));
                assert_eq!(x, y, "read from the state");
                res = vec![Some(y.text.to_string())];
            }
            let utxo = Outpoint::new(Txid::from(h32(req(0))), Vout::from_u32(req(0).len() as u32 * 65537));
            let x = ProofOfReserves::new(utxo, SmallBlob::try_from(req(0).as_bytes().to_vec()).expect("proof"));
            let y = ProofOfReserves::from_strict_val_unchecked(&state("RGBContract.ProofOfReserves", &x));
            assert_eq!(x, y, "proof read from the state");
            (res, p)
        }),
    };
    match read {
        None => json!({"ret": "refused", "q": [], "p": 0}),
        Some((texts, p)) => {
            let same = texts == q;
            json!({"ret": "ok", "q": if same { c["q"].clone() } else { json!(texts) }, "p": p})
        }
    }
}

fn tickers(c: &Value) -> Value {
    let ticker = |n: &str| {
        let t: String = c[n].as_array().expect("word").iter().map(|x| x.as_str().expect("sign")).collect();
        Ticker::from_str(&t).expect("ticker")
    };
    let (v, w) = (ticker("v"), ticker("w"));
    let hash = |t: &Ticker| {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        h.finish()
    };
    let order = v.cmp(&w);
    assert_eq!(v.partial_cmp(&w), Some(order), "orders");
    if v == w {
        assert_eq!(hash(&v), hash(&w), "hashes of equal tickers");
    }
    let order = format!("{order:?}").to_lowercase();
    if (order == "equal") == (v == w) { json!(order) } else { json!(format!("{order} but == gives {}", v == w)) }
}

pub fn call(c: &Value) -> (Value, Value) {
    let mut nc = c.clone();
    let got = match text(c, "f") {
        "note.run" => {
            for o in nc["out"].as_array_mut().expect("results") {
                o["see"] = sorted(o["see"].as_array().expect("annotations").clone());
            }
            attempt(|| run(c), |v| v)
        }
        "descr.make" => attempt(|| make(c), |v| v),
        "descr.ticker" => attempt(|| tickers(c), |v| v),
        f => panic!("function {f}"),
    };
    (got, nc)
}
