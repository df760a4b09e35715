//! The simulated world: runs, judges, minimises and replays.
mod compiler;
mod parsing;
mod sys;

use simcore::genrun::World;
use simcore::json::J;
use std::collections::HashMap;

#[global_allocator]
static ALLOC: sys::A = sys::A;

pub struct Args(HashMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.into())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}
fn world(a: &Args) -> World {
    let n = a.num("gen_n", 60) as usize;
    let specs = simcore::genspec::gen_all(a.num("gen_seed", 1), 8, n);
    let mut t: Vec<Option<simcore::exec::ParseFn>> = vec![None; specs.len()];
    for p in [
        pool0::TABLE,
        pool1::TABLE,
        pool2::TABLE,
        pool3::TABLE,
        pool4::TABLE,
        pool5::TABLE,
        pool6::TABLE,
        pool7::TABLE,
    ] {
        for (i, f) in p {
            t[*i] = Some(*f);
        }
    }
    let live = (0..t.len()).filter(|i| t[*i].is_some()).collect();
    let _ = simcore::exec::TABLE.set(t);
    World::new(specs, live)
}
fn main() {
    sys::init();
    let mut it = std::env::args().skip(1);
    let mode = it.next().unwrap_or_default();
    let mut m = HashMap::new();
    let mut files = Vec::new();
    for x in it {
        match x.split_once('=') {
            Some((k, v)) => {
                m.insert(k.to_string(), v.to_string());
            }
            None => files.push(x),
        }
    }
    let a = Args(m);
    #[cfg(feature = "host")]
    let _ = simcore::defs::HOST.set([
        derive_host::entry_StructMeta,
        derive_host::entry_Parse,
        derive_host::entry_ToTokens,
    ]);
    let read = |f: &str| -> J {
        let t = std::fs::read_to_string(f).unwrap_or_else(|e| {
            eprintln!("{f}: {e}");
            std::process::exit(2)
        });
        J::parse(&t).unwrap_or_else(|e| {
            eprintln!("{f}: {e}");
            std::process::exit(2)
        })
    };
    match mode.as_str() {
        "batch" => {
            let prop = a.get("prop", "C01");
            let out = if ["C10", "C11", "C16", "C17"].contains(&prop.as_str()) {
                compiler::batch(&a, &prop)
            } else {
                parsing::batch(&world(&a), &a, &prop)
            };
            std::fs::write(a.get("out", "/dev/stdout"), out.to_text()).unwrap();
        }
        "exec" | "shrink" => {
            let j = read(&files[0]);
            let prop = j.str("property");
            let r = if j.get("session").is_some() {
                if mode == "exec" {
                    compiler::exec(&j, &prop)
                } else {
                    compiler::shrink(&j, &prop, a.num("secs", 30))
                }
            } else {
                let w = world(&a);
                if mode == "exec" {
                    parsing::exec(&w, &j, &prop)
                } else {
                    parsing::shrink(&w, &j, &prop, a.num("secs", 30))
                }
            };
            match r {
                Some(j) => {
                    std::fs::write(a.get("out", "/dev/stdout"), j.to_text() + "\n").unwrap();
                    std::process::exit(1);
                }
                None => println!("not reproduced"),
            }
        }
        "specs" => {
            let w = world(&a);
            for s in &w.specs {
                let built = if w.live.contains(&s.id) { "" } else { " (not built)" };
                let written = if w.feats[s.id].written { " written" } else { "" };
                println!("// SPEC {}{built}{written}", s.id);
                println!("{}", simcore::emit::definition(s));
            }
        }
        "probe" => {
            let before = sys::HASH_USES.load(std::sync::atomic::Ordering::SeqCst);
            let h: HashMap<u32, u32> = HashMap::new();
            std::thread::spawn(|| HashMap::<u32, u32>::new().len()).join().unwrap();
            let after = sys::HASH_USES.load(std::sync::atomic::Ordering::SeqCst);
            println!("hash seam uses: {before} -> {after} {}", h.len());
            let near = std::env::var_os("HOME");
            sys::seed_world(5);
            let seen: Vec<_> = ["HOME", "CARGO_PKG_NAME", "X", "Y"].map(std::env::var_os).into();
            let t = std::time::SystemTime::now();
            let again = std::time::Instant::now().elapsed();
            sys::real_world();
            println!("environment: {near:?} -> {seen:?}; time {t:?} {again:?}");
            println!("uses: {:?} {:?}", sys::ENV_USES, sys::CLOCK_USES);
        }
        _ => {
            eprintln!("modes: batch exec shrink specs probe");
            std::process::exit(2);
        }
    }
}
