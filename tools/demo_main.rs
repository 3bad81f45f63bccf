#![allow(dead_code)]
mod proj;
mod replay;
mod world;

use serde_json::{json, Value};

/// run WORLD INIT ACT...: prints results of the calls and the final observation
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let raw = std::fs::read_to_string(&args[2]).unwrap();
    let a: replay::Alphabet = serde_json::from_str(&raw).unwrap();
    let ctx = replay::Ctx::new(a);
    let mut st = ctx.init(&args[3]);
    let rets: Vec<Value> = args[4..].iter().map(|act| ctx.step(&mut st, act)).collect();
    println!("{}", json!({"rets": rets, "obs": proj::normal(&ctx.obs(&st), false)}));
}
