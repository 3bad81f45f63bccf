//! Cases of pure functions: the input, and the list of results the specification allows.

use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::Mutex;

use amplify::confinement::Confined;
use rgbinvoice::*;
use rgbstd::{DataState, FungibleState};
use serde_json::{json, Value};
use strict_encoding::StrictDeserialize;
use strict_encoding::StrictSerialize;

pub fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a.iter().map(text).collect(),
        Value::Number(n) => n.to_string(),
        v => panic!("not a text: {v}"),
    }
}
pub fn num(v: &Value) -> u64 { text(v).parse().expect("number") }

pub const REFUSED: &str = "refused";
pub const PANIC: &str = "panic";

/// Runs the code under test: a panic is a result.
pub fn attempt<T>(f: impl FnOnce() -> T, ok: impl FnOnce(T) -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => ok(t),
        Err(_) => json!(PANIC),
    }
}

fn st(n: u64) -> Value { json!(n.to_string()) }

macro_rules! arith {
    ($t:ident, $op:expr, $a:expr, $b:expr, $get:expr) => {{
        let (a, b) = ($t::from($a), $t::from($b));
        let get = $get;
        let mut m = a;
        let ret = |r: Option<$t>, or: $t| match r {
            Some(x) => json!({"ret": "ok", "val": get(x)}),
            None => json!({"ret": "none", "val": get(or)}),
        };
        match $op {
            "checked_add" => ret(a.checked_add(b), a),
            "checked_sub" => ret(a.checked_sub(b), a),
            "saturating_add" => ret(Some(a.saturating_add(b)), a),
            "saturating_sub" => ret(Some(a.saturating_sub(b)), a),
            "checked_add_assign" => {
                let r = m.checked_add_assign(b);
                json!({"ret": if r.is_some() { "ok" } else { "none" }, "val": get(m)})
            }
            "checked_sub_assign" => {
                let r = m.checked_sub_assign(b);
                json!({"ret": if r.is_some() { "ok" } else { "none" }, "val": get(m)})
            }
            "saturating_add_assign" => {
                m.saturating_add_assign(b);
                json!({"ret": "ok", "val": get(m)})
            }
            "saturating_sub_assign" => {
                m.saturating_sub_assign(b);
                json!({"ret": "ok", "val": get(m)})
            }
            op => plain!($t, op, a, b, get),
        }
    }};
}
macro_rules! plain {
    ($t:ident, $op:expr, $a:expr, $b:expr, $get:expr) => {{
        let (a, b, get) = ($a, $b, $get);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut m = a;
            match $op {
                "add" => a + b,
                "sub" => a - b,
                "add_assign" => {
                    m += b;
                    m
                }
                "sub_assign" => {
                    m -= b;
                    m
                }
                op => panic!("unknown operation {op}"),
            }
        }));
        match r {
            Ok(x) => json!({"ret": "ok", "val": get(x)}),
            Err(_) => json!({"ret": "panic", "val": get(a)}),
        }
    }};
}

fn digits(n: u64) -> Value { json!(n.to_string().chars().map(|c| c.to_string()).collect::<Vec<_>>()) }

fn coin(c: CoinAmount) -> Value {
    json!({"int": st(c.int()), "fract": st(c.fract()), "p": c.precision().decimals()})
}
fn no_coin() -> Value { json!({"int": REFUSED, "fract": REFUSED, "p": 0}) }

fn precision(v: &Value) -> Precision {
    Precision::try_from(v.as_u64().expect("precision") as u8).expect("precision")
}

pub fn seal_invoice() -> RgbInvoiceBuilder {
    use rgbstd::SecretSeal;
    let seal = SecretSeal::from(crate::world::h32("beneficiary"));
    RgbInvoiceBuilder::new(XChainNet::bitcoin(invoice::Network::Mainnet, Beneficiary::from(seal)))
}

/// The result of the code under test.
pub fn call(c: &Value) -> Value {
    let f = c["f"].as_str().expect("function");
    if let Some((ty, op)) = f.split_once('.') {
        match ty {
            "amount" if c.get("b").is_some() => {
                let (a, b) = (num(&c["a"]), num(&c["b"]));
                if op == "sum" {
                    let x: Amount = [a, b].into_iter().sum();
                    let y: Amount = [a, b].into_iter().map(Amount::from).sum();
                    let z: Amount = [0, a, 0, b, 0].into_iter().sum();
                    assert_eq!((x, y), (y, z), "sums differ");
                    return json!({"ret": "ok", "val": digits(x.value())});
                }
                return arith!(Amount, op, a, b, |x: Amount| digits(x.value()));
            }
            "fraction" if c.get("b").is_some() => {
                let (a, b) = (num(&c["a"]), num(&c["b"]));
                return arith!(OwnedFraction, op, a, b, |x: OwnedFraction| digits(x.value()));
            }
            "index" if c.get("b").is_some() => {
                let a = TokenIndex::from(num(&c["a"]) as u32);
                let b = TokenIndex::from(num(&c["b"]) as u32);
                return plain!(TokenIndex, op, a, b, |x: TokenIndex| digits(
                    x.to_string().parse().expect("number")
                ));
            }
            _ => {}
        }
    }
    match f {
        "amount.print" => {
            let a = Amount::from(num(&c["v"]));
            let bytes = a.to_strict_serialized::<8>().expect("eight bytes").release();
            let b = Amount::from_strict_serialized::<8>(Confined::from_checked(bytes.clone()));
            assert_eq!(b.ok(), Some(a), "bytes do not round trip");
            assert_eq!(Amount::from(FungibleState::from(a)), a, "state does not round trip");
            let val = strict_types::StrictVal::num(a.value());
            assert_eq!(Amount::from_strict_val_unchecked(&val), a, "value does not round trip");
            json!({"text": a.to_string(), "bytes": bytes})
        }
        "amount.read" => attempt(
            || Amount::from_str(c["s"].as_str().unwrap()),
            |r| r.map(|a| st(a.value())).unwrap_or(json!(REFUSED)),
        ),
        "amount.precision" => {
            let v = num(&c["v"]);
            let a = Amount::from(v);
            let p = precision(&c["p"]);
            let (i, d) = a.split(p);
            json!({
                "split": [st(i), st(d)],
                "floor": st(a.floor(p)), "ceil": st(a.ceil(p)), "round": st(a.round(p)), "rem": st(a.rem(p)),
                "with": attempt(|| Amount::with_precision(v, p), |a| st(a.value())),
                "checked": Amount::with_precision_checked(v, p).map(|a| st(a.value())).unwrap_or(json!("none")),
                "saturating": st(p.saturating_convert(v).value()),
            })
        }
        "coin.print" => {
            let x = CoinAmount::new(num(&c["v"]), precision(&c["p"]));
            json!({
                "coin": coin(x),
                "text": attempt(|| x.to_string(), |s| json!(s)),
                "space": attempt(|| format!("{x: >#}"), |s| json!(s)),
                "under": attempt(|| format!("{x:_>#}"), |s| json!(s)),
            })
        }
        "coin.read" => attempt(
            || CoinAmount::from_str(c["s"].as_str().unwrap()),
            |r| r.map(coin).unwrap_or_else(|_| no_coin()),
        ),
        "coin.with" => {
            let (i, d, p) = (num(&c["int"]), num(&c["fract"]), precision(&c["p"]));
            json!({
                "coin": attempt(|| CoinAmount::with(i, d, p), |r| r.map(coin).unwrap_or(json!(REFUSED))),
                "amount": attempt(|| seal_invoice().set_amount(i, d, p), |r| match r {
                    Ok(b) => match b.finish().owned_state {
                        InvoiceState::Amount(a) => st(a.value()),
                        _ => json!("no amount"),
                    },
                    Err(b) if b.clone().finish().owned_state == InvoiceState::Void => json!(REFUSED),
                    Err(_) => json!("altered"),
                }),
            })
        }
        "coin.approx" => {
            let n = c["hundredths"].as_u64().expect("number") as f64 / 100.0;
            attempt(|| unsafe { seal_invoice().set_amount_approx(n, precision(&c["p"])) }, |r| match r {
                Ok(b) => match b.finish().owned_state {
                    InvoiceState::Amount(a) => st(a.value()),
                    _ => json!("no amount"),
                },
                Err(_) => json!(REFUSED),
            })
        }
        "alloc.print" => {
            let (i, d) = (num(&c["i"]) as u32, num(&c["d"]));
            let a = Allocation::with(i, d);
            let state = DataState::from(a);
            assert_eq!(Allocation::from(state.clone()), a, "state does not round trip");
            let bytes: Vec<u8> = state.as_slice().to_vec();
            json!({
                "text": a.to_string(), "bytes": bytes,
                "index": a.token_index().to_string(), "fraction": st(a.fraction().value()),
            })
        }
        "alloc.read" => attempt(
            || (Allocation::from_str(c["s"].as_str().unwrap()), NonFungible::from_str(c["s"].as_str().unwrap())),
            |(r, n)| {
                assert_eq!(n.ok(), r.clone().ok().map(NonFungible::RGB21), "different readings");
                r.map(|a| json!({"index": a.token_index().to_string(), "fraction": st(a.fraction().value())}))
                    .unwrap_or_else(|_| json!({"index": REFUSED, "fraction": REFUSED}))
            },
        ),
        "fraction.read" => attempt(
            || OwnedFraction::from_str(c["s"].as_str().unwrap()),
            |r| r.map(|a| json!(a.to_string())).unwrap_or(json!(REFUSED)),
        ),
        "index.read" => attempt(
            || TokenIndex::from_str(c["s"].as_str().unwrap()),
            |r| r.map(|a| json!(a.to_string())).unwrap_or(json!(REFUSED)),
        ),
        f => panic!("unknown function {f}"),
    }
}

pub fn run(mut cases: Vec<Value>, threads: usize) -> Value {
    // cases with the same layout of allocations go together
    cases.sort_by_cached_key(|c| c.get("l").map(|l| (l.to_string(), c["ord"].to_string())));
    let n = cases.len();
    let chunk = n / threads + 1;
    type Names = HashMap<String, (String, Value)>;
    let ids: Mutex<(Names, Names)> = Mutex::default();
    let ids = &ids;
    let divergences: Vec<Value> = std::thread::scope(|s| {
        let hs: Vec<_> = cases
            .chunks(chunk)
            .map(|part| {
                s.spawn(move || {
                    let mut res = vec![];
                    for c in part {
                        let (got, c) = catch_unwind(AssertUnwindSafe(|| {
                            let f = c["f"].as_str().expect("function");
                            match f.split_once('.').map(|x| x.0) {
                                Some("invoice") => crate::invoices::call(c),
                                Some("iface" | "impl") => crate::ifaces::call(c),
                                Some("view") => crate::views::call(c),
                                Some("note" | "descr") => crate::notes::call(c),
                                Some("kit") => crate::kits::call(c),
                                Some("builder") => crate::builders::call(c),
                                Some("compose") => crate::compose::call(c),
                                Some("container") => crate::containers::call(c),
                                _ => (call(c), c.clone()),
                            }
                        }))
                        .unwrap_or_else(|e| {
                            (json!(format!("panic: {}", crate::replay::panic_msg(e))), c.clone())
                        });
                        if let Some(class) = c.get("class") {
                            // equal results exactly within the class
                            let class = class.to_string();
                            let id = got.to_string();
                            let mut ids = ids.lock().unwrap();
                            let (a, b) = &mut *ids;
                            let a = a.entry(class.clone()).or_insert_with(|| (id.clone(), c.clone())).clone();
                            let b = b.entry(id.clone()).or_insert_with(|| (class.clone(), c.clone())).clone();
                            if a.0 != id {
                                res.push(json!({"case": c, "got": {"differs from": a.1}}));
                            } else if b.0 != class {
                                res.push(json!({"case": c, "got": {"equal to": b.1}}));
                            }
                            continue;
                        }
                        let allowed = c["out"].as_array().expect("results");
                        if !allowed.contains(&got) {
                            res.push(json!({"case": c, "got": got}));
                        }
                    }
                    res
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("thread")).collect()
    });
    json!({"cases": n, "divergences": divergences})
}
