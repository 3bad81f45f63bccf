mod builders;
mod cases;
mod compose;
mod containers;
mod ifaces;
mod kits;
mod notes;
mod views;
mod invoices;
mod merge;
mod persist;
mod proj;
mod replay;
mod world;

use std::io::BufRead;

use serde_json::{json, Value};

fn read_json(p: &str) -> Value {
    serde_json::from_str(&std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}")))
        .unwrap_or_else(|e| panic!("{p}: {e}"))
}

/// Lines printed by TLC with `PrintT(ToJson(..))` are quoted strings; everything else is skipped.
pub fn tlc_lines(p: &str) -> Vec<Value> {
    let f = std::io::BufReader::new(std::fs::File::open(p).unwrap_or_else(|e| panic!("{p}: {e}")));
    let mut res = vec![];
    for line in f.lines() {
        let line = line.unwrap();
        if line.starts_with("\"{") {
            let s: String = serde_json::from_str(&line).expect("quoted line");
            res.push(serde_json::from_str(&s).expect("json line"));
        } else if line.starts_with('{') {
            res.push(serde_json::from_str(&line).expect("json line"));
        }
    }
    res
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let threads = std::env::var("THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let r = std::panic::catch_unwind(|| match arg(1) {
        // prepare WORLD OUT
        "prepare" => {
            let v = replay::prepare(&read_json(arg(2)));
            std::fs::write(arg(3), serde_json::to_string(&v).unwrap()).unwrap();
            0
        }
        // replay WORLD EDGES OUT
        "replay" => {
            let a: replay::Alphabet = serde_json::from_value(read_json(arg(2))).unwrap();
            let edges: Vec<replay::Edge> =
                tlc_lines(arg(3)).into_iter().map(|v| serde_json::from_value(v).unwrap()).collect();
            let n = edges.len();
            let (steps, div) = replay::replay(arg(2), &a, edges, threads);
            let out = json!({"edges": n, "steps": steps, "divergences": div});
            std::fs::write(arg(4), serde_json::to_string_pretty(&out).unwrap()).unwrap();
            0
        }
        // persist WORLD EDGES OUT SCRATCH
        "persist" => {
            let a: replay::Alphabet = serde_json::from_value(read_json(arg(2))).unwrap();
            let edges: Vec<replay::Edge> =
                tlc_lines(arg(3)).into_iter().map(|v| serde_json::from_value(v).unwrap()).collect();
            let (steps, n, div) = persist::replay_persist(arg(2), &a, edges, arg(5), threads);
            let out = json!({"edges": n, "steps": steps, "divergences": div});
            std::fs::write(arg(4), serde_json::to_string_pretty(&out).unwrap()).unwrap();
            0
        }
        // cases FILE OUT: compares results of pure functions with the allowed ones
        "cases" => {
            let out = cases::run(tlc_lines(arg(2)), threads);
            std::fs::write(arg(3), serde_json::to_string_pretty(&out).unwrap()).unwrap();
            0
        }
        // one CASE: prints the result of a single case, which may bring the process down
        "one" => {
            println!("{}", containers::call(&read_json(arg(2))).0);
            0
        }
        // merge WORLD EDGES OUT
        "merge" => {
            let w = serde_json::from_value(read_json(arg(2))).unwrap();
            let out = merge::run(w, tlc_lines(arg(3)));
            std::fs::write(arg(4), serde_json::to_string_pretty(&out).unwrap()).unwrap();
            0
        }
        // run WORLD INIT ACT...: prints results of the calls and the final observation
        "run" => {
            let a: replay::Alphabet = serde_json::from_value(read_json(arg(2))).unwrap();
            let ctx = replay::Ctx::new(a);
            let mut st = ctx.init(arg(3));
            let rets: Vec<Value> = args[4..].iter().map(|act| ctx.step(&mut st, act)).collect();
            println!("{}", json!({"rets": rets, "obs": proj::normal(&ctx.obs(&st), false)}));
            0
        }
        // status WORLD CONS CHAIN: why a consignment is not valid
        "status" => {
            let a: replay::Alphabet = serde_json::from_value(read_json(arg(2))).unwrap();
            let ctx = replay::Ctx::new(a);
            println!("{}", ctx.status(arg(3), arg(4)));
            0
        }
        x => {
            eprintln!("unknown command {x}");
            2
        }
    });
    match r {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("harness error: {}", replay::panic_msg(e));
            std::process::exit(2)
        }
    }
}
