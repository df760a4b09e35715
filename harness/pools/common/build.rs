use std::{env, fs, path::PathBuf};
fn var(k: &str, d: &str) -> String {
    println!("cargo:rerun-if-env-changed={k}");
    env::var(k).unwrap_or(d.into())
}
fn main() {
    println!("cargo:rerun-if-changed=../common/build.rs");
    let pool: usize = env::var("CARGO_PKG_NAME").unwrap()[4..].parse().unwrap();
    let seed: u64 = var("SIM_GEN_SEED", "1").parse().unwrap();
    let n: usize = var("SIM_GEN_N", "60").parse().unwrap();
    let mut skip: Vec<usize> = var("SIM_SKIP", "").split(',').filter_map(|x| x.parse().ok()).collect();
    let only = var("SIM_ONLY", "");
    let only: Vec<usize> = only.split(',').filter_map(|x| x.parse().ok()).collect();
    let restrict = env::var("SIM_ONLY").is_ok_and(|x| !x.is_empty());
    let specs = simcore::genspec::gen_pool(seed, pool, n);
    if restrict {
        skip.extend(specs.iter().map(|s| s.id).filter(|i| !only.contains(i)));
    }
    let out = PathBuf::from(env::var("OUT_DIR").unwrap()).join("gen.rs");
    fs::write(out, simcore::emit::pool(&specs, &skip)).unwrap();
}
