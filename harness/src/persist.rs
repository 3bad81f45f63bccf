//! Replay of behaviours of a stock attached to a storage.

use std::collections::BTreeSet;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use nonasync::persistence::{PersistenceError, PersistenceProvider};
use rgbstd::Identity;
use rgbstd::containers::{Kit, TrustLevel};
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::*;
use serde_json::{json, Value};
use strict_encoding::TypeName;

use crate::proj::*;
use crate::replay::*;
use crate::world::{iface, types};

#[derive(Default, Debug)]
struct Faults {
    down: BTreeSet<String>,
    /// Number of the remaining writes before all of them start to fail.
    cut: Option<usize>,
    writes: usize,
}

/// Storage made by the library, with failures injected.
#[derive(Clone, Debug)]
struct Dev {
    fs: FsBinStore,
    faults: Arc<Mutex<Faults>>,
}

impl Dev {
    fn check(&self, object: &str) -> Result<(), PersistenceError> {
        let mut f = self.faults.lock().unwrap();
        f.writes += 1;
        let mut fail = f.down.contains(object);
        if let Some(n) = f.cut {
            fail |= n == 0;
            f.cut = Some(n.saturating_sub(1));
        }
        if fail {
            return Err(PersistenceError::with(io::Error::new(io::ErrorKind::Other, "no space left")));
        }
        Ok(())
    }
}

macro_rules! provider {
    ($ty:ty, $name:literal) => {
        impl PersistenceProvider<$ty> for Dev {
            fn load(&self) -> Result<$ty, PersistenceError> { self.fs.load() }
            fn store(&self, object: &$ty) -> Result<(), PersistenceError> {
                self.check($name)?;
                self.fs.store(object)
            }
        }
    };
}
provider!(MemStash, "stash");
provider!(MemState, "state");
provider!(MemIndex, "index");

struct Run<'a> {
    ctx: &'a Ctx,
    dev: Dev,
    st: St,
}

fn identity() -> Identity { Identity::from("alice") }

fn kit() -> Kit {
    let mut i = iface();
    i.name = TypeName::from("KitFace");
    let mut kit = Kit { types: types().type_system(), ..Kit::default() };
    kit.ifaces.push(i).expect("interface");
    kit
}

fn full(ctx: &Ctx, st: &Stock) -> Value {
    let tr = match st.as_stash_provider().get_trust(&identity()).unwrap() {
        TrustLevel::Unknown => "",
        TrustLevel::Malicious => "malicious",
        TrustLevel::Ultimate => "ultimate",
        _ => "?",
    };
    let k = st.iface(TypeName::from("KitFace")).is_ok();
    json!({"st": stock_obs(&ctx.w, st, &ctx.outpoints), "tr": {"l": tr, "k": k}})
}

impl<'a> Run<'a> {
    fn new(ctx: &'a Ctx, dir: &Path, init: &str) -> Self {
        let dev = Dev { fs: FsBinStore::new(dir.to_path_buf()).expect("scratch"), faults: Default::default() };
        Run { ctx, dev, st: ctx.init(init) }
    }

    fn step(&mut self, act: &str) -> Value {
        match catch_unwind(AssertUnwindSafe(|| self.step_inner(act))) {
            Ok(v) => v,
            Err(e) => json!({"panic": panic_msg(e)}),
        }
    }

    fn step_inner(&mut self, act: &str) -> Value {
        let p: Vec<&str> = act.split(' ').collect();
        match p[0] {
            "attach" => {
                let r = self.st.stock.0.make_persistent(self.dev.clone(), p[1] == "auto");
                json!({"ok": r.is_ok()})
            }
            "load" => match Stock::load(self.dev.clone(), p[1] == "auto") {
                Ok(s) => {
                    self.st.stock.0 = s;
                    json!({"ok": true})
                }
                Err(_) => json!({"ok": false}),
            },
            "store" => json!({"ok": self.st.stock.0.store().is_ok()}),
            "down" => {
                self.dev.faults.lock().unwrap().down = p[1..].iter().map(|x| x.to_string()).collect();
                json!({})
            }
            "trust" => {
                let level = match p[1] {
                    "malicious" => TrustLevel::Malicious,
                    "ultimate" => TrustLevel::Ultimate,
                    x => panic!("unknown trust level {x}"),
                };
                let r = self.st.stock.0.as_stash_provider_mut().set_trust(identity(), level);
                json!({"ok": r.is_ok()})
            }
            "kit" => json!({"ok": self.st.stock.0.import_kit(kit().validate().expect("valid kit")).is_ok()}),
            "cut" => {
                self.dev.faults.lock().unwrap().cut = Some(p[1].parse().unwrap());
                let r = self.ctx.step(&mut self.st, &p[2..p.len() - 1].join(" "));
                self.dev.faults.lock().unwrap().cut = None;
                match r.get("panic") {
                    Some(_) => r,
                    None => json!({"ok": r["ok"]}),
                }
            }
            _ => self.ctx.step(&mut self.st, act),
        }
    }

    fn mem(&self) -> Value {
        match catch_unwind(AssertUnwindSafe(|| full(self.ctx, &self.st.stock.0))) {
            Ok(v) => v,
            Err(e) => json!({"panic": panic_msg(e)}),
        }
    }

    fn disk(&self) -> Value {
        match catch_unwind(AssertUnwindSafe(|| match Stock::load(self.dev.fs.clone(), false) {
            Ok(s) => full(self.ctx, &s),
            Err(e) => json!({"err": e.to_string()}),
        })) {
            Ok(v) => v,
            Err(e) => json!({"panic": panic_msg(e)}),
        }
    }
}

/// Of the two outcomes the specification allows, is it the one which has happened?
fn feasible(act: &str, ret: &Value) -> bool {
    match act.rsplit_once(" =") {
        Some((_, "ok")) => ret["ok"] == Value::Bool(true) || ret.get("panic").is_some(),
        Some((_, "fail")) => ret["ok"] == Value::Bool(false) || ret.get("panic").is_some(),
        _ => true,
    }
}

pub fn replay_persist(
    world: &str,
    a: &Alphabet,
    edges: Vec<Edge>,
    scratch: &str,
    threads: usize,
) -> (usize, usize, Vec<Divergence>) {
    let queue = Mutex::new(edges);
    let res = Mutex::new((0usize, 0usize, vec![]));
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (queue, res) = (&queue, &res);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let ctx = Ctx::new(a.clone());
                    let dir = PathBuf::from(scratch).join(format!("dev{t}"));
                    loop {
                        let Some(e) = queue.lock().unwrap().pop() else { break };
                        let _ = std::fs::remove_dir_all(&dir);
                        let mut run = Run::new(&ctx, &dir, &e.i);
                        let mut steps = 0;
                        let mut ok = true;
                        for act in &e.p {
                            steps += 1;
                            let ret = run.step(act);
                            ok &= feasible(act, &ret);
                            if !ok {
                                break;
                            }
                        }
                        if ok {
                            steps += 1;
                            let ret = run.step(&e.a);
                            ok = feasible(&e.a, &ret);
                            if ok {
                                let mut diffs = vec![];
                                diff("ret", &normal(&e.r, false), &normal(&ret, false), &mut diffs);
                                diff(
                                    "mem",
                                    &normal(&e.o["mem"], false),
                                    &normal(&run.mem(), false),
                                    &mut diffs,
                                );
                                if e.o["disk"]["known"] == Value::Bool(true) {
                                    diff(
                                        "disk",
                                        &normal(&e.o["disk"]["v"], false),
                                        &normal(&run.disk(), false),
                                        &mut diffs,
                                    );
                                }
                                if !diffs.is_empty() {
                                    let d = Divergence {
                                        world: world.to_string(),
                                        init: e.i.clone(),
                                        path: e.p.clone(),
                                        act: e.a.clone(),
                                        failed: e.r.get("ok") == Some(&Value::Bool(false)),
                                        diffs,
                                    };
                                    res.lock().unwrap().2.push(d);
                                }
                            }
                        }
                        let mut r = res.lock().unwrap();
                        r.0 += steps;
                        r.1 += usize::from(ok);
                    }
                    let _ = std::fs::remove_dir_all(&dir);
                })
                .unwrap();
        }
    });
    res.into_inner().unwrap()
}
