//! Compiler world: sessions of macro expansions.
use crate::Args;
use crate::sys::{self, End};
use simcore::defs::{self, Def, Exp, Session};
use simcore::json::J;
use simcore::rng::{FNV0, fnv, fnv_str};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
struct Found {
    prop: &'static str,
    aspect: &'static str,
    detail: String,
    at: String,
}
type Ran = (Vec<Vec<Exp>>, u64, u64, [u64; 2]);
/// the session in a fresh process
fn run(s: &Session) -> Result<Ran, End> {
    let s = Arc::new(s.clone());
    sys::child_json(move || {
        sys::seed_hash(s.hash);
        sys::seed_world(s.hash);
        let (o, st) = defs::run(&s);
        sys::real_world();
        J::obj(vec![
            (
                "out",
                J::Arr(o.iter().map(|t| J::Arr(t.iter().map(|e| e.to_json()).collect())).collect()),
            ),
            ("switches", J::n(st.switches as usize)),
            ("trace", J::s(format!("{:x}", st.trace))),
            ("env", J::n(sys::ENV_USES.load(SeqCst) as usize)),
            ("clock", J::n(sys::CLOCK_USES.load(SeqCst) as usize)),
        ])
    })
    .map(|j| {
        (
            j.arr("out")
                .iter()
                .map(|t| t.as_arr().iter().map(Exp::from_json).collect())
                .collect(),
            j.num("switches") as u64,
            u64::from_str_radix(&j.str("trace"), 16).unwrap(),
            [j.num("env") as u64, j.num("clock") as u64],
        )
    })
}
fn ended(e: &End, alone: bool) -> Vec<Found> {
    let aspect = match e {
        End::Hang => "hang",
        End::Deadlock => "deadlock",
        _ => "crash",
    };
    let mut v = vec![Found {
        prop: "C11",
        aspect,
        detail: format!("the expansion does not end: {}", e.name()),
        at: if alone { "alone".into() } else { "session".to_string() },
    }];
    if !alone {
        v.push(Found {
            prop: "C10",
            ..v[0].clone()
        });
    }
    v
}
#[derive(Default)]
struct Reach {
    count: BTreeMap<String, u64>,
    cases: HashSet<u64>,
    nontrivial: HashSet<u64>,
    traces: HashSet<u64>,
    digest: u64,
    expansions: u64,
    sample: Option<J>,
}
fn dump(d: &Def, got: &Exp, plain: &Exp) -> Vec<(&'static str, &'static str, String)> {
    if d.class == "dump" {
        defs::judge_dump(got, plain)
    } else {
        defs::judge_foreign(got, plain)
    }
}
fn verify(s: &Session, reach: &mut Reach) -> Result<Vec<Found>, String> {
    let mut v = Vec::new();
    let mut base: Vec<Option<Exp>> = Vec::new();
    let mut plain: Vec<Option<Exp>> = Vec::new();
    for (i, d) in s.defs.iter().enumerate() {
        if !s.threads.iter().flatten().any(|x| *x == i) {
            base.push(None);
            plain.push(None);
            continue;
        }
        plain.push(if d.class != "dump" && !defs::foreign_dump(d) {
            None
        } else {
            let one = Session {
                hash: 0x0A10_4E00 + i as u64,
                defs: vec![defs::undump(d)],
                threads: vec![vec![0]],
                ..Session::default()
            };
            match run(&one) {
                Ok((o, ..)) => Some(o[0][0].clone()),
                Err(End::Broken(e)) => return Err(e),
                Err(_) => None,
            }
        });
        match run(&s.alone(i, 0x0A10_4E00 + i as u64)) {
            Ok((o, ..)) => {
                let mut m = defs::judge(d, &o[0][0], None);
                if let Some(x) = &plain[i] {
                    m.extend(dump(d, &o[0][0], x));
                }
                for (p, a, t) in m {
                    v.push(Found {
                        prop: p,
                        aspect: a,
                        detail: t,
                        at: format!("definition {i} alone"),
                    });
                }
                base.push(Some(o[0][0].clone()));
            }
            Err(End::Broken(e)) => return Err(e),
            Err(e) => {
                v.extend(ended(&e, true));
                return Ok(v);
            }
        }
    }
    match run(s) {
        Ok((o, switches, trace, uses)) => {
            *reach.count.entry("n environment reads".into()).or_default() += uses[0];
            *reach.count.entry("n clock reads".into()).or_default() += uses[1];
            reach.digest = fnv(reach.digest, trace);
            if s.threads.len() > 1 {
                reach.traces.insert(trace);
                *reach.count.entry("n context switches".into()).or_default() += switches;
            }
            for (t, (ids, outs)) in s.threads.iter().zip(&o).enumerate() {
                for (i, (d, e)) in ids.iter().zip(outs).enumerate() {
                    reach.expansions += 1;
                    reach.digest = fnv_str(reach.digest, e.text());
                    *reach
                        .count
                        .entry(format!("reached {} / {}", s.defs[*d].class, e.class()))
                        .or_default() += 1;
                    let mut m = defs::judge(&s.defs[*d], e, base[*d].as_ref());
                    if let Some(x) = &plain[*d] {
                        *reach.count.entry("n dumps checked".into()).or_default() += 1;
                        m.extend(dump(&s.defs[*d], e, x));
                    }
                    for (p, a, x) in m {
                        v.push(Found {
                            prop: p,
                            aspect: a,
                            detail: x,
                            at: format!("thread {t} expansion {i}, definition {d}"),
                        });
                    }
                }
            }
        }
        Err(End::Broken(e)) => return Err(e),
        Err(e) => v.extend(ended(&e, false)),
    }
    Ok(v)
}
fn replay(prop: &str, s: &Session, f: &Found, k: u64) -> J {
    J::obj(vec![
        ("property", J::s(prop)),
        ("aspect", J::s(f.aspect)),
        ("at", J::s(&f.at)),
        ("detail", J::s(&f.detail)),
        ("run", J::n(k as usize)),
        ("session", s.to_json()),
    ])
}
pub fn batch(a: &Args, prop: &str) -> J {
    let seed = a.num("seed", 1);
    let (me, n) = (a.num("worker", 0), a.num("workers", 1));
    let size = a.num("chunk", 50);
    let chunks = a.num("chunks", 4);
    let deadline = Instant::now() + Duration::from_secs(a.num("secs", 60));
    let mut reach = Reach::default();
    let mut found = Vec::new();
    let mut broken = Vec::new();
    let mut digests = BTreeMap::new();
    let (mut runs, mut multi) = (0, 0);
    let mut c = me;
    'all: while c < chunks && Instant::now() < deadline {
        reach.digest = FNV0;
        for k in c * size..(c + 1) * size {
            if Instant::now() > deadline {
                break 'all;
            }
            let s = defs::gen_session(prop, seed, k);
            match verify(&s, &mut reach) {
                Err(e) => broken.push(format!("session {k}: {e}")),
                Ok(v) => {
                    runs += 1;
                    multi += (s.threads.len() > 1) as usize;
                    note(&s, &mut reach, k);
                    if let Some(f) = v.iter().find(|f| f.prop == prop) {
                        // again, in fresh processes
                        match verify(&s, &mut Reach::default()) {
                            Ok(v) if v.iter().any(|g| g.prop == prop) => found.push(replay(prop, &s, f, k)),
                            Ok(_) if f.aspect == "history" => {
                                // not even the same session gives the same code
                                found.push(replay(prop, &s, f, k))
                            }
                            x => broken.push(format!("session {k}: {f:?} not reproduced: {x:?}")),
                        }
                        break 'all;
                    }
                }
            }
        }
        digests.insert(c, format!("{:016x}", reach.digest));
        c += n;
    }
    reach.count.insert("n expansions".into(), reach.expansions);
    let hex = |s: &HashSet<u64>| J::Arr(s.iter().map(|x| J::s(format!("{x:x}"))).collect());
    J::obj(vec![
        ("runs", J::n(runs)),
        ("multi", J::n(multi)),
        ("max_allocs", J::n(0)),
        (
            "count",
            J::Obj(reach.count.iter().map(|(k, v)| (k.clone(), J::n(*v as usize))).collect()),
        ),
        ("ended", J::Obj(vec![])),
        ("paths", hex(&reach.cases)),
        ("nontrivial", hex(&reach.nontrivial)),
        ("traces", hex(&reach.traces)),
        (
            "digests",
            J::Obj(digests.iter().map(|(k, v)| (k.to_string(), J::s(v.as_str()))).collect()),
        ),
        ("samples", J::Arr(reach.sample.into_iter().collect())),
        ("found", J::Arr(found)),
        ("broken", J::Arr(broken.iter().map(|x| J::s(x.as_str())).collect())),
    ])
}
fn note(s: &Session, reach: &mut Reach, k: u64) {
    let mut h = FNV0;
    for t in &s.threads {
        for d in t {
            h = fnv_str(h, &s.defs[*d].src);
        }
        h = fnv(h, 1);
    }
    reach.cases.insert(h);
    let bad = s.defs.iter().any(|d| d.class != "valid");
    if bad || s.threads.len() > 1 {
        reach.nontrivial.insert(h);
    }
    let same = |d: &Def| {
        syn::parse_str::<syn::DeriveInput>(&d.src).map(|x| x.ident.to_string()).unwrap_or_default()
    };
    let mut names: Vec<String> = s.defs.iter().map(same).collect();
    let n = names.len();
    names.sort();
    names.dedup();
    if names.len() < n {
        *reach.count.entry("fault same_named_definitions".into()).or_default() += 1;
    }
    for (class, key) in [("dump", "fault dump_abort")] {
        if s.defs.iter().any(|d| d.class == class) {
            *reach.count.entry(key.into()).or_default() += 1;
        }
    }
    let broken = s.defs.iter().filter(|d| d.class != "valid" && d.class != "dump").count();
    *reach.count.entry("fault broken_definitions".into()).or_default() += broken as u64;
    let total: usize = s.threads.iter().map(|t| t.len()).sum();
    *reach.count.entry("fault repeated_expansions".into()).or_default() += (total - s.defs.len()) as u64;
    *reach.count.entry("fault other_hash_seed".into()).or_default() += 1;
    *reach.count.entry("fault other_surroundings".into()).or_default() += 1;
    if s.threads.len() > 1 {
        *reach.count.entry("fault interleaved_expansions".into()).or_default() += 1;
    }
    if reach.sample.is_none() && s.defs.len() <= 4 {
        reach.sample = Some(J::obj(vec![("run", J::n(k as usize)), ("session", s.to_json())]));
    }
}
fn session(j: &J) -> Session {
    Session::from_json(j.get("session").unwrap()).expect("session")
}
pub fn exec(j: &J, prop: &str) -> Option<J> {
    let s = session(j);
    for _ in 0..3 {
        match verify(&s, &mut Reach::default()) {
            Ok(v) => {
                if let Some(f) = v.iter().find(|f| f.prop == prop) {
                    return Some(replay(prop, &s, f, j.num("run") as u64));
                }
            }
            Err(e) => {
                eprintln!("{e}");
                std::process::exit(2);
            }
        }
    }
    None
}
pub fn shrink(j: &J, prop: &str, secs: u64) -> Option<J> {
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut best = session(j);
    let hit = |s: &Session, a: Option<&str>| -> Option<Found> {
        let v = verify(s, &mut Reach::default()).ok()?;
        v.into_iter().find(|f| f.prop == prop && a.is_none_or(|a| a == f.aspect))
    };
    let mut f = hit(&best, None)?;
    let aspect = f.aspect;
    let mut changed = true;
    while changed && Instant::now() < deadline {
        changed = false;
        for c in candidates(&best) {
            if Instant::now() > deadline {
                break;
            }
            if let Some(g) = hit(&c, Some(aspect)) {
                best = c;
                f = g;
                changed = true;
                break;
            }
        }
    }
    // unused definitions
    let used: Vec<usize> = (0..best.defs.len())
        .filter(|i| best.threads.iter().flatten().any(|x| x == i))
        .collect();
    let mut s = best.clone();
    s.defs = used.iter().map(|i| best.defs[*i].clone()).collect();
    for t in s.threads.iter_mut() {
        for x in t.iter_mut() {
            *x = used.iter().position(|u| u == x).unwrap();
        }
    }
    if let Some(g) = hit(&s, Some(aspect)) {
        best = s;
        f = g;
    }
    Some(replay(prop, &best, &f, j.num("run") as u64))
}
fn candidates(s: &Session) -> Vec<Session> {
    let mut v = Vec::new();
    if s.threads.len() > 1 {
        for t in 0..s.threads.len() {
            let mut x = s.clone();
            x.threads.remove(t);
            if t < x.gaps.len() {
                x.gaps.remove(t);
            }
            v.push(x);
        }
        let mut x = s.clone();
        x.threads = vec![s.threads.concat()];
        x.gaps.clear();
        x.sched.clear();
        v.push(x);
    }
    for t in 0..s.threads.len() {
        let m = s.threads[t].len();
        let mut step = m.div_ceil(2);
        while step > 0 && m > 1 {
            let mut a = 0;
            while a < m {
                let b = (a + step).min(m);
                if b - a < m {
                    let mut x = s.clone();
                    x.threads[t].drain(a..b);
                    v.push(x);
                }
                a = b;
            }
            if step == 1 {
                break;
            }
            step = step.div_ceil(2);
        }
    }
    for k in [0, s.sched.len() / 2] {
        if k < s.sched.len() {
            let mut x = s.clone();
            x.sched.truncate(k);
            v.push(x);
        }
    }
    for g in 0..s.gaps.len() {
        for k in [0, s.gaps[g].len() / 2, s.gaps[g].len().saturating_sub(1)] {
            if k < s.gaps[g].len() {
                let mut x = s.clone();
                x.gaps[g].truncate(k);
                v.push(x);
            }
        }
    }
    v
}
