//! Invoices and their texts.  In texts of the specification `{...}` stands for identifiers and special characters.

use std::str::FromStr;

use amplify::ByteArray;
use bp::dbc::Method;
use bp::{OutputPk, PubkeyHash, ScriptHash, WPubkeyHash, WScriptHash};
use commit_verify::{Digest, Sha256};
use invoice::AddressPayload;
use rgbinvoice::*;
use rgbstd::{AttachId, ContractId, SecretSeal};
use serde_json::{json, Value};
use strict_encoding::{FieldName, TypeName};

use crate::cases::PANIC;
use crate::world::h32;

const ALPHABET: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!$";

fn base64(data: &[u8]) -> String {
    let mut s = String::new();
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = (acc << 8) | *b as u32;
        bits += 8;
        while bits >= 6 {
            bits -= 6;
            s.push(ALPHABET[(acc >> bits) as usize & 63] as char);
        }
    }
    if bits > 0 {
        s.push(ALPHABET[(acc << (6 - bits)) as usize & 63] as char);
    }
    s
}
fn checksum(hri: &str, payload: &[u8]) -> [u8; 4] {
    let mut e = Sha256::new();
    e.update(hri.as_bytes());
    let key: [u8; 32] = e.finalize().into();
    let mut e = Sha256::new();
    e.update(key);
    e.update(payload);
    let sha: [u8; 32] = e.finalize().into();
    [sha[0], sha[1], sha[1], sha[2]]
}
fn chunked(s: &str) -> String {
    let mut r = s[..8].to_string();
    for c in s.as_bytes()[8..].chunks(7) {
        r.push('-');
        r += std::str::from_utf8(c).unwrap();
    }
    r
}
fn altered(payload: &[u8]) -> Vec<u8> {
    let mut p = payload.to_vec();
    p[7] ^= 0x10;
    p
}

/// Text of an identifier with a modification.
fn ident(hri: &str, prefix: bool, payload: &[u8], check: bool, modif: &str) -> String {
    let sum = |p: &[u8]| {
        let mut v = p.to_vec();
        v.extend(checksum(hri, p));
        v
    };
    let plain = if check { sum(payload) } else { payload.to_vec() };
    let with = |hri: &str, s: String| if prefix { format!("{hri}:{s}") } else { s };
    match modif {
        "" => with(hri, chunked(&base64(&plain))),
        "flat" => with(hri, base64(&plain)),
        "bare" => chunked(&base64(&plain)),
        "cut" => with(hri, chunked(&base64(&plain[..plain.len() - 6]))),
        "long" => with(hri, chunked(&base64(&[&plain[..], &[1, 2, 3]].concat()))),
        "char" => with(hri, chunked(&base64(&plain)).replacen('-', "_", 1)),
        "check" => with(hri, chunked(&base64(&[&altered(payload)[..], &checksum(hri, payload)].concat()))),
        "checked" => with(hri, chunked(&base64(&sum(payload)))),
        "unchecked" => with(hri, chunked(&base64(payload))),
        "aseal" => format!("utxob:{}", chunked(&base64(&plain))),
        "avout" => format!("wvout:{}", chunked(&base64(&plain))),
        m => panic!("unknown modification {m}"),
    }
}

fn contract(n: &str) -> ContractId { ContractId::from(h32(&format!("contract {n}"))) }
fn seal(n: &str) -> SecretSeal { SecretSeal::from(h32(&format!("seal {n}"))) }
fn attach(n: &str) -> AttachId { AttachId::from(h32(&format!("attachment {n}"))) }

fn tapkey(n: &str) -> [u8; 32] {
    (0..)
        .map(|i| h32(&format!("tap {n} {i}")))
        .find(|k| OutputPk::from_byte_array(*k).is_ok())
        .unwrap()
}
fn address(kind: &str, n: &str) -> (u8, Vec<u8>) {
    let h = h32(&format!("address {n}"));
    match kind {
        "p2pkh" => (1, h[..20].to_vec()),
        "p2sh" => (2, h[..20].to_vec()),
        "p2wpkh" => (3, h[..20].to_vec()),
        "p2wsh" => (4, h.to_vec()),
        "p2tr" if n == "invalid" => (5, vec![0xFF; 32]),
        "p2tr" => (5, tapkey(n).to_vec()),
        b => (b.parse().expect("address type"), h.to_vec()),
    }
}
fn vout_payload(method: &str, kind: &str, n: &str) -> Vec<u8> {
    let m = match method {
        "opret" => 0,
        "tapret" => 1,
        b => b.parse().expect("method"),
    };
    let (k, hash) = address(kind, n);
    let mut p = vec![m, k];
    p.extend(hash);
    p.resize(34, 0);
    p
}
fn payload_of(kind: &str, n: &str) -> AddressPayload {
    let (_, h) = address(kind, n);
    let h20 = || -> [u8; 20] { h[..20].try_into().unwrap() };
    let h32 = || -> [u8; 32] { h[..].try_into().unwrap() };
    match kind {
        "p2pkh" => AddressPayload::Pkh(PubkeyHash::from(h20())),
        "p2sh" => AddressPayload::Sh(ScriptHash::from(h20())),
        "p2wpkh" => AddressPayload::Wpkh(WPubkeyHash::from(h20())),
        "p2wsh" => AddressPayload::Wsh(WScriptHash::from(h32())),
        "p2tr" => AddressPayload::Tr(OutputPk::from_byte_array(h32()).unwrap()),
        k => panic!("unknown address {k}"),
    }
}

fn name(id: &str) -> String {
    let p: Vec<&str> = id.split(':').collect();
    let modif = |i: usize| p.get(i).copied().unwrap_or_default();
    match p[0] {
        "c" if modif(2) == "mnemo" => {
            format!("{:#}", contract(p[1])).trim_start_matches("rgb:").to_string()
        }
        "c" => ident("rgb", false, &contract(p[1]).to_byte_array(), false, modif(2)),
        "s" => ident("utxob", true, &h32(&format!("seal {}", p[1])), true, modif(2)),
        "a" if modif(2) == "plain" => ident("rgb:fs", true, &attach(p[1]).to_byte_array(), false, ""),
        "a" => attach(p[1]).to_string(),
        "v" if modif(4) == "padded" => {
            let mut x = vout_payload(p[1], p[2], p[3]);
            x[33] = 1;
            ident("wvout", true, &x, true, "")
        }
        "v" => ident("wvout", true, &vout_payload(p[1], p[2], p[3]), true, modif(4)),
        "long" => "A".repeat(120),
        "nul" => "\0".to_string(),
        "eacute" if modif(1) == "pct" => "%C3%A9".to_string(),
        "eacute" => "\u{e9}".to_string(),
        "quote" => "\"".to_string(),
        "misc" => "\\^`{|}".to_string(),
        x => panic!("unknown name {x}"),
    }
}
fn subst(s: &str) -> String {
    let mut r = String::new();
    let mut rest = s;
    while let Some((a, b)) = rest.split_once('{') {
        let (n, c) = b.split_once('}').expect("closing brace");
        r += a;
        r += &name(n);
        rest = c;
    }
    r + rest
}
fn subst_all(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(subst(s)),
        Value::Array(a) => a.iter().map(subst_all).collect(),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), subst_all(v))).collect()),
        v => v.clone(),
    }
}

const NETS: [(&str, ChainNet); 6] = [
    ("bc", ChainNet::BitcoinMainnet),
    ("tb", ChainNet::BitcoinTestnet),
    ("sb", ChainNet::BitcoinSignet),
    ("bcrt", ChainNet::BitcoinRegtest),
    ("lq", ChainNet::LiquidMainnet),
    ("tl", ChainNet::LiquidTestnet),
];
const SCHEMES: [&str; 6] = ["rpc", "rpcs", "http", "https", "ws", "wss"];

fn transport(s: &str) -> RgbTransport {
    let (scheme, host) = s.split_once("://").unwrap_or((s, ""));
    let host = host.to_string();
    match scheme {
        "rpc" | "rpcs" => RgbTransport::JsonRpc { tls: scheme.ends_with('s'), host },
        "http" | "https" => RgbTransport::RestHttp { tls: scheme.ends_with('s'), host },
        "ws" => RgbTransport::WebSockets { tls: false, host },
        "wss" => RgbTransport::WebSockets { tls: true, host },
        "storm" => RgbTransport::Storm {},
        "unspecified" => RgbTransport::UnspecifiedMeans,
        s => panic!("unknown transport {s}"),
    }
}
fn transport_name(t: &RgbTransport) -> String {
    let (no, tls, host) = match t {
        RgbTransport::JsonRpc { tls, host } => (0, *tls, host),
        RgbTransport::RestHttp { tls, host } => (2, *tls, host),
        RgbTransport::WebSockets { tls, host } => (4, *tls, host),
        RgbTransport::Storm {} => return "storm".to_string(),
        RgbTransport::UnspecifiedMeans => return "unspecified".to_string(),
        _ => return "?".to_string(),
    };
    format!("{}://{host}", SCHEMES[no + tls as usize])
}

fn vout_name(v: &Pay2Vout) -> String {
    let m = match v.method {
        Method::OpretFirst => "opret",
        Method::TapretFirst => "tapret",
    };
    for k in ["p2pkh", "p2sh", "p2wpkh", "p2wsh", "p2tr"] {
        for n in ["0", "1"] {
            if payload_of(k, n) == v.address {
                return format!("vout {m} {k} {n}");
            }
        }
    }
    format!("vout {m} ? {:?}", v.address)
}

fn two(f: impl Fn(&str) -> bool) -> String {
    ["0", "1"].into_iter().find(|n| f(n)).unwrap_or("?").to_string()
}
fn or_none<T: ToString>(o: &Option<T>) -> String { o.as_ref().map(T::to_string).unwrap_or("none".to_string()) }

/// The invoice as the specification sees it.
fn project(i: &RgbInvoice) -> Value {
    let net = i.beneficiary.chain_network();
    json!({
        "contract": i.contract.map(|c| two(|n| contract(n) == c)).unwrap_or("none".to_string()),
        "iface": or_none(&i.iface),
        "op": or_none(&i.operation),
        "assign": or_none(&i.assignment),
        "state": match &i.owned_state {
            InvoiceState::Void => "void".to_string(),
            InvoiceState::Amount(a) => format!("amount {}", a.value()),
            InvoiceState::Data(NonFungible::RGB21(a)) =>
                format!("allocation {}@{}", a.fraction().value(), a.token_index()),
            InvoiceState::Attach(a) => format!("attachment {}", two(|n| attach(n) == *a)),
        },
        "net": NETS.iter().find(|(_, n)| *n == net).map(|(n, _)| *n).unwrap_or("?"),
        "ben": match i.beneficiary.into_inner() {
            Beneficiary::BlindedSeal(s) => format!("seal {}", two(|n| seal(n) == s)),
            Beneficiary::WitnessVout(v) => vout_name(&v),
        },
        "expiry": or_none(&i.expiry),
        "transports": i.transports.iter().map(transport_name).collect::<Vec<_>>(),
        "unknown": i.unknown_query.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
    })
}
fn refused() -> Value {
    json!({
        "contract": "refused", "iface": "RGB20", "op": "none", "assign": "none", "state": "amount 100", "net": "bc",
        "ben": "seal 0", "expiry": "none", "transports": ["unspecified"], "unknown": [],
    })
}
fn read(s: &str) -> Value {
    match std::panic::catch_unwind(|| RgbInvoice::from_str(s)) {
        Err(_) => json!(PANIC),
        Ok(Err(e)) => {
            let _ = e.to_string();
            refused()
        }
        Ok(Ok(i)) => {
            // what was read denotes itself
            let again = std::panic::catch_unwind(|| RgbInvoice::from_str(&i.to_string()));
            match again {
                Ok(Ok(a)) if a == i => project(&i),
                Ok(Ok(a)) => json!({"reprinted": i.to_string(), "denotes": project(&a)}),
                Ok(Err(e)) => json!({"reprinted": i.to_string(), "refused": e.to_string()}),
                Err(_) => json!(PANIC),
            }
        }
    }
}

/// The invoice made with the builder.
fn build(v: &Value) -> RgbInvoice {
    let s = |k: &str| v[k].as_str().expect("text");
    let opt = |k: &str| Some(s(k)).filter(|x| *x != "none").map(str::to_string);
    let net = NETS.iter().find(|(n, _)| *n == s("net")).expect("network").1;
    let p: Vec<&str> = s("ben").split(' ').collect();
    let ben = match p[0] {
        "seal" => Beneficiary::from(seal(p[1])),
        _ => Beneficiary::from(Pay2Vout {
            method: if p[1] == "opret" { Method::OpretFirst } else { Method::TapretFirst },
            address: payload_of(p[2], p[3]),
        }),
    };
    let ben = XChainNet::with(net, ben);
    let mut b = match (opt("contract"), opt("iface").as_deref()) {
        (Some(c), Some("RGB20")) => RgbInvoiceBuilder::rgb20(contract(&c), ben),
        (None, Some("RGB20")) => RgbInvoiceBuilder::rgb20_anything(ben),
        (Some(c), i) => {
            let b = RgbInvoiceBuilder::with(contract(&c), ben);
            match i {
                Some(i) => b.set_interface(TypeName::try_from(i.to_string()).unwrap()),
                None => b,
            }
        }
        (None, Some(i)) => RgbInvoiceBuilder::new(ben).set_interface(TypeName::try_from(i.to_string()).unwrap()),
        (None, None) => RgbInvoiceBuilder::new(ben),
    };
    if let Some(op) = opt("op") {
        b = b.set_operation(FieldName::try_from(op).unwrap());
    }
    if let Some(a) = opt("assign") {
        b = b.set_assignment(FieldName::try_from(a).unwrap());
    }
    let state: Vec<&str> = s("state").split(' ').collect();
    match state[0] {
        "amount" => b = b.set_amount_raw(state[1].parse::<u64>().unwrap()),
        "allocation" => {
            let (d, i) = state[1].split_once('@').unwrap();
            b = b.set_allocation(i.parse().unwrap(), d.parse().unwrap()).unwrap();
        }
        _ => {}
    }
    if let Some(e) = opt("expiry") {
        b = b.set_expiry_timestamp(e.parse().unwrap());
    }
    let ts: Vec<RgbTransport> = v["transports"].as_array().unwrap().iter().map(|t| transport(t.as_str().unwrap())).collect();
    if ts != [RgbTransport::UnspecifiedMeans] {
        let texts: Vec<String> = ts.iter().map(|t| t.to_string()).collect();
        if ts.iter().any(|t| *t == RgbTransport::UnspecifiedMeans) {
            b = b.add_transports_raw(ts);
        } else if ts.len() == 1 {
            b = b.add_transport(&texts[0]).expect("valid transport");
        } else {
            b = b.add_transports(texts.iter().map(|t| t.as_str())).expect("valid transports");
        }
    }
    let mut i = b.finish();
    if state[0] == "attachment" {
        i.owned_state = InvoiceState::Attach(attach(state[1]));
    }
    for kv in v["unknown"].as_array().unwrap() {
        i.unknown_query.insert(kv[0].as_str().unwrap().to_string(), kv[1].as_str().unwrap().to_string());
    }
    i
}

/// The result of the code and the allowed results, with names substituted.
pub fn call(c: &Value) -> (Value, Value) {
    let c = subst_all(c);
    let got = match c["f"].as_str().unwrap() {
        "invoice.read" => read(c["s"].as_str().unwrap()),
        "invoice.print" => {
            let i = build(&c["i"]);
            let text = i.to_string();
            json!({
                "back": read(&text),
                "flat": read(&format!("{i:#}")),
                "again": RgbInvoice::from_str(&text).ok() == Some(i),
                "text": if c["exact"] == json!(true) { text.as_str() } else { "" },
            })
        }
        f => panic!("unknown function {f}"),
    };
    (got, c)
}
