//! Parse and render world.
use crate::Args;
use crate::sys::{self, End};
use simcore::compare::{Judge, Mismatch, Reach};
use simcore::exec;
use simcore::genrun::{self, World};
use simcore::json::J;
use simcore::op::*;
use simcore::rng::{FNV0, Rng, fnv, fnv_str};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Found {
    pub aspect: String,
    pub detail: String,
    pub at: String,
    pub props: Vec<String>,
}
fn found(m: &Mismatch) -> Found {
    Found {
        aspect: m.aspect.into(),
        detail: m.detail.clone(),
        at: m.at.clone(),
        props: m.props.iter().map(|x| x.to_string()).collect(),
    }
}
fn strs(v: &[String]) -> J {
    J::Arr(v.iter().map(|x| J::s(x.as_str())).collect())
}
impl Found {
    fn to_json(&self) -> J {
        J::obj(vec![
            ("aspect", J::s(&self.aspect)),
            ("detail", J::s(&self.detail)),
            ("at", J::s(&self.at)),
            ("props", strs(&self.props)),
        ])
    }
    fn from_json(j: &J) -> Found {
        Found {
            aspect: j.str("aspect"),
            detail: j.str("detail"),
            at: j.str("at"),
            props: j.arr("props").iter().map(|x| x.as_str().to_string()).collect(),
        }
    }
}
/// the operation without the ones nested in it
fn bare(op: &Op) -> Op {
    let mut o = op.clone();
    o.faults.retain(|f| !matches!(f.1, Fault::Nest(_)));
    o.rfaults.retain(|f| !matches!(f.1, RFault::Nest(_)));
    o
}
/// what an operation did, as far as it may only depend on itself
fn core(o: &Outcome) -> String {
    format!("{:?} | calls {:?} | peeks {} | render {:?}", o.res, o.events, o.peeks, o.render)
}
/// what it did after its renderer panicked: same as if it had not
fn after(op: &Op, o: &Outcome) -> String {
    match &o.render {
        Some(r) if aborts(op) && !op.once => format!("{:?} | {} | {:?}", r.again, r.text, r.reparse),
        _ => String::new(),
    }
}
fn aborts(op: &Op) -> bool {
    op.rfaults.iter().any(|f| !matches!(f.1, RFault::Nest(_)))
}
fn collect(op: &Op, out: &Outcome, at: String, v: &mut Vec<(String, Op, String)>) {
    v.push((at.clone(), bare(op), format!("{} || {}", core(out), after(op, out))));
    for (render, inv, o) in &out.nested {
        let n = if *render {
            op.rfaults.iter().find_map(|f| match f {
                (i, RFault::Nest(n)) if i == inv => Some(n),
                _ => None,
            })
        } else {
            op.faults.iter().find_map(|f| match f {
                (i, Fault::Nest(n)) if i == inv => Some(n),
                _ => None,
            })
        };
        if let Some(n) = n {
            collect(n, o, format!("{at} / nested in call {inv}"), v);
        }
    }
}
fn collect_run(run: &Run, outs: &[Vec<Outcome>]) -> Vec<(String, Op, String)> {
    let mut v = Vec::new();
    for (t, (ops, outs)) in run.tasks.iter().zip(outs).enumerate() {
        for (i, (op, out)) in ops.iter().zip(outs).enumerate() {
            collect(op, out, format!("task {t} op {i}"), &mut v);
        }
    }
    v
}
/// executes a run in its surroundings
fn play(r: &Arc<Run>) -> (Vec<Vec<Outcome>>, simcore::sched::Stats) {
    sys::seed_hash(r.world as u64);
    sys::seed_world(r.world as u64);
    let x = exec::run(r);
    sys::real_world();
    x
}
fn alone(op: &Op) -> Run {
    Run {
        tasks: vec![vec![op.clone()]],
        ..Run::default()
    }
}
/// the operation in a fresh process
fn run_alone(op: &Op) -> Result<String, End> {
    let r = Arc::new(alone(op));
    let first = match sys::child(move || {
        let o = &play(&r).0[0][0];
        core(o).into_bytes()
    }) {
        End::Done(v) => String::from_utf8_lossy(&v).into_owned(),
        e => return Err(e),
    };
    if !aborts(op) || op.once {
        return Ok(first + " || ");
    }
    let mut calm = op.clone();
    calm.rfaults.clear();
    let r = Arc::new(alone(&calm));
    let me = op.clone();
    match sys::child(move || {
        after(&me, &play(&r).0[0][0]).into_bytes()
    }) {
        End::Done(v) => Ok(first + " || " + &String::from_utf8_lossy(&v)),
        e => Err(e),
    }
}
fn judge(w: &World) -> Judge<'_> {
    Judge {
        specs: &w.specs,
        feats: &w.feats,
    }
}
fn end_found(e: &End, run: &Run) -> Option<Found> {
    let aspect = match e {
        End::Hang => "hang",
        End::Deadlock => "deadlock",
        End::Crash(_) => "crash",
        _ => return None,
    };
    let mut props = vec!["C09".to_string()];
    if let End::Deadlock = e
        && run.tasks.len() > 1
    {
        props.push("C08".into());
    }
    Some(Found {
        aspect: aspect.into(),
        detail: match e {
            End::Hang => "an operation exceeded its step budget or stopped making progress".into(),
            End::Deadlock => "all remaining operations wait for each other".into(),
            End::Crash(s) => format!("the process died of signal {s}"),
            _ => unreachable!(),
        },
        at: "run".into(),
        props,
    })
}
/// Executes a history in a fresh process and judges its last run.
fn verify(w: &World, prop: &str, hist: &[Run]) -> Result<Vec<Found>, String> {
    let hist: Vec<Arc<Run>> = hist.iter().map(|r| Arc::new(r.clone())).collect();
    let last = hist.last().unwrap().clone();
    if prop == "C08" {
        let h = hist.clone();
        let r = sys::child_json(move || {
                let mut outs = Vec::new();
            for r in &h {
                outs = play(r).0;
            }
            J::Arr(
                collect_run(h.last().unwrap(), &outs)
                    .into_iter()
                    .map(|x| J::Arr(vec![J::s(x.0), x.1.to_json(), J::s(x.2)]))
                    .collect(),
            )
        });
        match r {
            Ok(j) => {
                for x in j.as_arr() {
                    let x = x.as_arr();
                    let op = Op::from_json(&x[1]).unwrap();
                    match run_alone(&op) {
                        Ok(a) if a == x[2].as_str() => {}
                        Ok(a) => {
                            return Ok(vec![Found {
                                aspect: "interference".into(),
                                detail: format!("alone: {a}; in company: {}", x[2].as_str()),
                                at: x[0].as_str().into(),
                                props: vec!["C08".into()],
                            }]);
                        }
                        Err(End::Broken(e)) => return Err(e),
                        Err(e) => {
                            return Ok(vec![Found {
                                aspect: "interference".into(),
                                detail: format!("alone: {}; in company: {}", e.name(), x[2].as_str()),
                                at: x[0].as_str().into(),
                                props: vec!["C08".into()],
                            }]);
                        }
                    }
                }
                Ok(vec![])
            }
            Err(End::Broken(e)) => Err(e),
            Err(e) => {
                // does every operation end when alone?
                for op in last.tasks.iter().flatten() {
                    match run_alone(&bare(op)) {
                        Ok(_) => {}
                        Err(End::Broken(e)) => return Err(e),
                        Err(_) => return Ok(vec![]),
                    }
                }
                Ok(vec![Found {
                    aspect: "interference".into(),
                    detail: format!("every operation ends when run alone; together: {}", e.name()),
                    at: "run".into(),
                    props: vec!["C08".into()],
                }])
            }
        }
    } else {
        let h = hist.clone();
        let r = sys::child_json(move || {
                let mut outs = Vec::new();
            for r in &h {
                outs = play(r).0;
            }
            let m = judge(w).run(h.last().unwrap(), &outs, &mut Reach::default());
            J::Arr(m.iter().map(|m| found(m).to_json()).collect())
        });
        match r {
            Ok(j) => Ok(j.as_arr().iter().map(Found::from_json).collect()),
            Err(End::Broken(e)) => Err(e),
            Err(e) => Ok(end_found(&e, &last).into_iter().collect()),
        }
    }
}
fn hits(v: &[Found], prop: &str, aspect: Option<&str>) -> Option<Found> {
    v.iter()
        .find(|f| f.props.iter().any(|p| p == prop) && aspect.is_none_or(|a| a == f.aspect))
        .cloned()
}
// ------------------------------------------------------------ batch
#[derive(Default)]
struct Total {
    runs: u64,
    multi: u64,
    count: BTreeMap<String, u64>,
    paths: HashSet<u64>,
    nontrivial: HashSet<u64>,
    traces: HashSet<u64>,
    digests: BTreeMap<u64, String>,
    samples: Vec<J>,
    found: Vec<J>,
    broken: Vec<String>,
    ended: BTreeMap<String, u64>,
}
fn map_json<K: ToString>(m: &BTreeMap<K, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.to_string(), J::Num(*v as i64))).collect())
}
fn path_hash(op: &Op, o: &Outcome) -> u64 {
    let mut h = fnv(FNV0, op.spec as u64);
    h = fnv_str(h, op.entry.name());
    for e in &o.events {
        h = fnv(h, e.0 as u64);
    }
    for f in &o.fired {
        h = fnv_str(h, f);
    }
    h = fnv(
        h,
        match &o.res {
            Res::Ok { .. } => 1,
            Res::Err { own: Some(i), .. } => 16 + *i as u64,
            Res::Err { .. } => 2,
            Res::Panic { .. } => 3,
        },
    );
    if let Some(r) = &o.render {
        h = fnv(h, r.events.len() as u64);
        h = fnv(h, r.panic.is_some() as u64);
    }
    h
}
fn nontrivial(op: &Op, o: &Outcome) -> bool {
    !o.fired.is_empty() || !op.chan.is_empty() || !matches!(o.res, Res::Ok { .. }) || !o.nested.is_empty()
}
struct ChunkOut {
    j: J,
}
fn chunk(w: &World, prop: &str, seed: u64, c: u64, size: u64, deadline: Option<Instant>) -> Result<ChunkOut, End> {
    let p = genrun::profile(prop);
    sys::child_json(|| {
        let mut reach = Reach::default();
        let mut digest = FNV0;
        let (mut runs, mut multi, mut allocs) = (0u64, 0u64, 0u64);
        let (mut switches, mut aswitches, mut forced, mut yields) = (0u64, 0u64, 0u64, 0u64);
        let mut paths: BTreeSet<(u64, bool)> = BTreeSet::new();
        let mut traces: BTreeSet<u64> = BTreeSet::new();
        let mut bad = Vec::new();
        let mut hashes = Vec::new();
        let mut sample = J::Null;
        for k in c * size..(c + 1) * size {
            if deadline.is_some_and(|d| Instant::now() > d) {
                break;
            }
            let run = Arc::new(genrun::gen_run(w, &p, seed, k));
            sys::mark(k);
            let (outs, st) = play(&run);
            runs += 1;
            if run.tasks.len() > 1 {
                multi += 1;
                traces.insert(st.trace);
            }
            switches += st.switches;
            aswitches += st.alloc_switches;
            forced += st.forced;
            yields += st.yields;
            let all = collect_run(&run, &outs);
            for x in &all {
                digest = fnv_str(digest, &x.2);
            }
            digest = fnv(digest, st.trace);
            for (ops, outs) in run.tasks.iter().zip(&outs) {
                for (op, o) in ops.iter().zip(outs) {
                    paths.insert((path_hash(op, o), nontrivial(op, o)));
                    allocs = allocs.max(o.steps);
                }
            }
            let m = judge(w).run(&run, &outs, &mut reach);
            if prop == "C08" {
                // suspicious ones first
                let sus: BTreeSet<&str> = m.iter().map(|m| m.at.split(" / ").next().unwrap()).collect();
                // in a fresh process alone: what is suspicious, and a sample that
                // leaves out most of what the model settles
                let settled = |x: &(String, Op, String)| x.2.starts_with("Ok {") || x.2.starts_with("Err { own: Some(");
                let fresh = |i: usize, x: &(String, Op, String)| {
                    sus.contains(x.0.split(" / ").next().unwrap())
                        || if settled(x) { (k as usize + i).is_multiple_of(16) } else { k.is_multiple_of(8) }
                };
                let mut all: Vec<_> = all.iter().enumerate().map(|(i, x)| (fresh(i, x), x)).collect();
                all.sort_by_key(|x| sus.contains(x.1.0.split(" / ").next().unwrap()));
                hashes.push(J::Arr(vec![
                    J::n(k as usize),
                    J::Arr(
                        all.iter()
                            .map(|(f, x)| J::Arr(vec![x.1.to_json(), J::s(format!("{:x}", fnv_str(FNV0, &x.2))), J::n(*f as usize)]))
                            .collect(),
                    ),
                ]));
            }
            if k % 97 == 3 && sample == J::Null && run.tasks[0].len() < 20 {
                sample = J::obj(vec![
                    ("run", J::n(k as usize)),
                    ("history", run.to_json()),
                    (
                        "outcomes",
                        J::Arr(all.iter().take(6).map(|x| J::s(x.2.chars().take(300).collect::<String>())).collect()),
                    ),
                ]);
            }
            let m: Vec<_> = m.iter().filter(|m| m.props.contains(prop)).map(found).collect();
            if prop != "C08" && !m.is_empty() {
                bad.push(J::obj(vec![("k", J::n(k as usize)), ("found", m[0].to_json())]));
                break;
            }
        }
        let mut count: BTreeMap<String, u64> = BTreeMap::new();
        for (k, v) in &reach.cov {
            count.insert(format!("reached {k}"), *v);
        }
        for (k, v) in &reach.fired {
            count.insert(format!("fault {k}"), *v);
        }
        for (k, v) in &reach.chan {
            count.insert(format!("fault stream_{k}"), *v);
        }
        for (k, v) in [
            ("operations", reach.ops),
            ("nested operations", reach.nested),
            ("field parser calls", reach.calls),
            ("peeks", reach.peeks),
            ("renderings checked", reach.renders),
            ("round trips checked", reach.roundtrips),
            ("context switches", switches),
            ("context switches at allocations", aswitches),
            ("forced switches", forced),
            ("yield points in multi-task runs", yields),
            ("runs in seeded surroundings", runs),
            ("environment reads", sys::ENV_USES.load(SeqCst)),
            ("clock reads", sys::CLOCK_USES.load(SeqCst)),
        ] {
            count.insert(format!("n {k}"), v);
        }
        J::obj(vec![
            ("runs", J::n(runs as usize)),
            ("multi", J::n(multi as usize)),
            ("max_allocs", J::n(allocs as usize)),
            ("digest", J::s(format!("{digest:016x}"))),
            ("count", map_json(&count)),
            (
                "paths",
                J::Arr(paths.iter().map(|x| J::s(format!("{}{:x}", x.1 as u8, x.0))).collect()),
            ),
            ("traces", J::Arr(traces.iter().map(|x| J::s(format!("{x:x}"))).collect())),
            ("bad", J::Arr(bad)),
            ("hashes", J::Arr(hashes)),
            ("sample", sample),
        ])
    })
    .map(|j| ChunkOut { j })
}
pub fn batch(w: &World, a: &Args, prop: &str) -> J {
    let seed = a.num("seed", 1);
    let (me, n) = (a.num("worker", 0), a.num("workers", 1));
    let size = a.num("chunk", if prop == "C08" { 80 } else { 250 });
    let chunks = a.num("chunks", 4);
    let max_found = a.num("max_found", 1);
    let deadline = Instant::now() + Duration::from_secs(a.num("secs", 60));
    let mut t = Total::default();
    let mut max_allocs = 0;
    let mut c = me;
    while c < chunks && Instant::now() < deadline && (t.found.len() as u64) < max_found {
        let p = genrun::profile(prop);
        let hist = |k: u64| -> Vec<Run> { (c * size..=k).map(|i| genrun::gen_run(w, &p, seed, i)).collect() };
        let r = chunk(w, prop, seed, c, size, Some(deadline));
        match r {
            Ok(o) => {
                let j = o.j;
                t.runs += j.num("runs") as u64;
                t.multi += j.num("multi") as u64;
                max_allocs = max_allocs.max(j.num("max_allocs"));
                if j.num("runs") as u64 == size {
                    t.digests.insert(c, j.str("digest"));
                }
                if let Some(J::Obj(v)) = j.get("count") {
                    for (k, v) in v {
                        *t.count.entry(k.clone()).or_default() += v.as_num() as u64;
                    }
                }
                for x in j.arr("paths") {
                    let s = x.as_str();
                    let h = u64::from_str_radix(&s[1..], 16).unwrap();
                    t.paths.insert(h);
                    if s.starts_with('1') {
                        t.nontrivial.insert(h);
                    }
                }
                for x in j.arr("traces") {
                    t.traces.insert(u64::from_str_radix(x.as_str(), 16).unwrap());
                }
                if t.samples.len() < 2
                    && let Some(s) = j.get("sample")
                    && *s != J::Null
                {
                    t.samples.push(s.clone());
                }
                for b in j.arr("bad") {
                    let k = b.num("k") as u64;
                    let f = Found::from_json(b.get("found").unwrap());
                    confirm(w, prop, &hist(k), Some(&f), k, &mut t);
                }
                if prop == "C08" && Instant::now() < deadline {
                    regroup(w, seed, c, j.arr("hashes"), &hist, &mut t);
                }
                // compare with operations alone in a fresh process
                'runs: for r in j.arr("hashes") {
                    if Instant::now() > deadline {
                        break;
                    }
                    let r = r.as_arr();
                    let k = r[0].as_num() as u64;
                    let ops: Vec<_> = r[1].as_arr().iter().filter(|x| x.as_arr()[2].as_num() == 1).collect();
                    let step = ops.len().div_ceil(24);
                    for x in ops.iter().rev().step_by(step.max(1)) {
                        let x = x.as_arr();
                        let op = Op::from_json(&x[0]).unwrap();
                        *t.count.entry("n operations compared with a fresh process".into()).or_default() += 1;
                        let same = match run_alone(&op) {
                            Ok(a) => format!("{:x}", fnv_str(FNV0, &a)) == x[1].as_str(),
                            Err(End::Broken(e)) => {
                                t.broken.push(e);
                                true
                            }
                            Err(_) => false,
                        };
                        if !same {
                            confirm(w, prop, &hist(k), None, k, &mut t);
                            break 'runs;
                        }
                    }
                }
            }
            Err(End::Broken(e)) => t.broken.push(format!("chunk {c}: {e}")),
            Err(e) => {
                let k = sys::marked();
                *t.ended.entry(e.name().into()).or_default() += 1;
                if k != u64::MAX {
                    let h = hist(k);
                    let f = end_found(&e, h.last().unwrap()).unwrap();
                    t.runs += k - c * size;
                    if prop == "C08" || f.props.iter().any(|p| p == prop) {
                        confirm(w, prop, &h, None, k, &mut t);
                    }
                }
            }
        }
        c += n;
    }
    J::obj(vec![
        ("runs", J::n(t.runs as usize)),
        ("multi", J::n(t.multi as usize)),
        ("max_allocs", J::n(max_allocs)),
        ("count", map_json(&t.count)),
        ("ended", map_json(&t.ended)),
        ("paths", J::Arr(t.paths.iter().map(|x| J::s(format!("{x:x}"))).collect())),
        (
            "nontrivial",
            J::Arr(t.nontrivial.iter().map(|x| J::s(format!("{x:x}"))).collect()),
        ),
        ("traces", J::Arr(t.traces.iter().map(|x| J::s(format!("{x:x}"))).collect())),
        (
            "digests",
            J::Obj(t.digests.iter().map(|(k, v)| (k.to_string(), J::s(v.as_str()))).collect()),
        ),
        ("samples", J::Arr(t.samples)),
        ("found", J::Arr(t.found)),
        ("broken", J::Arr(t.broken.iter().map(|x| J::s(x.as_str())).collect())),
    ])
}
/// The operations of a chunk once more in another process, in other company:
/// what comes out must be the same.
fn regroup(w: &World, seed: u64, c: u64, hashes: &[J], hist: &dyn Fn(u64) -> Vec<Run>, t: &mut Total) {
    let mut r = Rng::sub(seed, 0x4E60, c);
    let mut ops: Vec<(u64, Op, String)> = Vec::new();
    for x in hashes {
        let x = x.as_arr();
        for y in x[1].as_arr() {
            let y = y.as_arr();
            ops.push((x[0].as_num() as u64, Op::from_json(&y[0]).unwrap(), y[1].as_str().to_string()));
        }
    }
    r.shuffle(&mut ops);
    if r.pct(60) {
        // similar types side by side
        let root = |mut i: usize| {
            while let Some(k) = w.specs[i].kin {
                i = k;
            }
            i
        };
        ops.sort_by_key(|x| root(x.1.spec));
    }
    let mut runs: Vec<Run> = Vec::new();
    let mut want: Vec<Vec<(u64, Option<String>)>> = Vec::new();
    let mut rest = ops.into_iter().peekable();
    while rest.peek().is_some() {
        let n = r.range(3, 60);
        let group: Vec<_> = rest.by_ref().take(n).collect();
        want.push(
            group
                .iter()
                .map(|x| (x.0, (!aborts(&x.1) || x.1.once).then(|| x.2.clone())))
                .collect(),
        );
        runs.push(Run {
            tasks: vec![group.into_iter().map(|x| x.1).collect()],
            ..Run::default()
        });
    }
    let arcs: Vec<Arc<Run>> = runs.iter().map(|r| Arc::new(r.clone())).collect();
    let done = sys::child_json(|| {
        J::Arr(
            arcs.iter()
                .enumerate()
                .map(|(g, run)| {
                    sys::mark(g as u64);
                    let outs = play(run).0;
                    J::Arr(
                        outs[0]
                            .iter()
                            .map(|o| J::s(format!("{:x}", fnv_str(FNV0, &(core(o) + " || ")))))
                            .collect(),
                    )
                })
                .collect(),
        )
    });
    match done {
        Ok(j) => {
            for (g, (got, want)) in j.as_arr().iter().zip(&want).enumerate() {
                for (i, (got, (k, want))) in got.as_arr().iter().zip(want).enumerate() {
                    let Some(want) = want else { continue };
                    *t.count.entry("n operations compared in other company".into()).or_default() += 1;
                    if got.as_str() == want {
                        continue;
                    }
                    // which of the two is it?
                    let here = match run_alone(&runs[g].tasks[0][i]) {
                        Ok(a) => format!("{:x}", fnv_str(FNV0, &a)) != got.as_str(),
                        Err(End::Broken(e)) => {
                            t.broken.push(e);
                            return;
                        }
                        Err(_) => true,
                    };
                    let h = if here { runs[..=g].to_vec() } else { hist(*k) };
                    confirm(w, "C08", &h, None, *k, t);
                    return;
                }
            }
        }
        Err(End::Broken(e)) => t.broken.push(format!("chunk {c} regrouped: {e}")),
        Err(e) => {
            let g = sys::marked();
            *t.ended.entry(e.name().into()).or_default() += 1;
            if g != u64::MAX {
                confirm(w, "C08", &runs[..=g as usize], None, c, t);
            }
        }
    }
}
/// A deviation was seen at the end of `hist`: reproduce it in a fresh process,
/// with as little history as possible.
fn confirm(w: &World, prop: &str, hist: &[Run], seen: Option<&Found>, k: u64, t: &mut Total) {
    let mut n = 1;
    loop {
        let h = &hist[hist.len() - n.min(hist.len())..];
        match verify(w, prop, h) {
            Err(e) => {
                t.broken.push(e);
                return;
            }
            Ok(v) => {
                if let Some(f) = hits(&v, prop, None) {
                    t.found.push(replay_json(w, prop, h, &f, k));
                    return;
                }
            }
        }
        if n >= hist.len() {
            break;
        }
        n *= 4;
    }
    t.broken.push(format!(
        "run {k}: {} not reproduced in a fresh process",
        seen.map_or("a deviation".into(), |f| format!("{f:?}"))
    ));
}
fn replay_json(w: &World, prop: &str, h: &[Run], f: &Found, k: u64) -> J {
    let mut ids: BTreeSet<usize> = BTreeSet::new();
    fn add(op: &Op, ids: &mut BTreeSet<usize>) {
        ids.insert(op.spec);
        for (_, f) in &op.faults {
            if let Fault::Nest(o) = f {
                add(o, ids);
            }
        }
        for (_, f) in &op.rfaults {
            if let RFault::Nest(o) = f {
                add(o, ids);
            }
        }
    }
    for op in h.last().unwrap().tasks.iter().flatten() {
        add(op, &mut ids);
    }
    // what they are made of
    loop {
        let n = ids.len();
        for i in ids.clone() {
            for t in w.specs[i].tys() {
                if let simcore::ir::Ty::Sub(j) = t {
                    ids.insert(j);
                }
            }
        }
        if ids.len() == n {
            break;
        }
    }
    J::obj(vec![
        ("property", J::s(prop)),
        ("aspect", J::s(&f.aspect)),
        ("at", J::s(&f.at)),
        ("detail", J::s(&f.detail)),
        ("run", J::n(k as usize)),
        (
            "definitions",
            J::Obj(
                ids.iter()
                    .take(12)
                    .map(|i| (format!("s{i}"), J::s(simcore::emit::definition(&w.specs[*i]))))
                    .collect(),
            ),
        ),
        ("history", J::Arr(h.iter().map(|r| r.to_json()).collect())),
    ])
}
fn history(j: &J) -> Vec<Run> {
    j.arr("history").iter().map(|r| Run::from_json(r).expect("run")).collect()
}
pub fn exec(w: &World, j: &J, prop: &str) -> Option<J> {
    let h = history(j);
    let v = verify(w, prop, &h).unwrap_or_else(|e| {
        eprintln!("{e}");
        std::process::exit(2)
    });
    hits(&v, prop, None).map(|f| replay_json(w, prop, &h, &f, j.num("run") as u64))
}
// ------------------------------------------------------------ minimisation
pub fn shrink(w: &World, j: &J, prop: &str, secs: u64) -> Option<J> {
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut best = history(j);
    let mut f = hits(&verify(w, prop, &best).ok()?, prop, None)?;
    let aspect = f.aspect.clone();
    let slow = ["hang"].contains(&aspect.as_str());
    let mut tries = 0;
    let mut changed = true;
    while changed && Instant::now() < deadline {
        changed = false;
        let mut i = 0;
        let mut cands = candidates(&best);
        while i < cands.len() && Instant::now() < deadline && tries < if slow { 40 } else { 6000 } {
            let c = &cands[i];
            tries += 1;
            i += 1;
            if *c == best || size(c) >= size(&best) {
                continue;
            }
            if let Ok(v) = verify(w, prop, c)
                && let Some(g) = hits(&v, prop, Some(&aspect))
            {
                best = c.clone();
                f = g;
                changed = true;
                cands = candidates(&best);
                // continue near where it worked
                i = i.saturating_sub(1);
            }
        }
    }
    Some(replay_json(w, prop, &best, &f, j.num("run") as u64))
}
fn op_size(o: &Op) -> usize {
    let mut n = 40 + o.src.len() + o.sink.len() + o.spans as usize + 5 * (o.nones > 0) as usize + 2 * o.chan.len() + 10 * (o.perm.len() + o.flips.len());
    if let Some(k) = o.stuck {
        n += 10 + k;
    }
    if o.entry != Entry::Whole {
        n += 3;
    }
    for (i, f) in &o.faults {
        n += 10 + i
            + match f {
                Fault::Nest(o) => op_size(o),
                Fault::ErrBefore | Fault::PanicBefore => 0,
                Fault::ErrFull => 1,
                Fault::ErrAfter(n) | Fault::PanicAfter(n) | Fault::Weird(n) | Fault::ForkWaste(n) => 2 + n,
            };
    }
    for (i, f) in &o.rfaults {
        n += 10 + i
            + match f {
                RFault::Nest(o) => op_size(o),
                RFault::PanicBefore => 0,
                RFault::PanicAfter(n) => 1 + n,
            };
    }
    n
}
fn size(h: &[Run]) -> usize {
    h.iter()
        .map(|r| {
            50 + r.tasks.iter().map(|t| 20 + t.iter().map(op_size).sum::<usize>()).sum::<usize>()
                + r.sched.len()
                + r.sched.iter().filter(|x| **x != 0).count()
                + (r.world != 0) as usize
                + r.gaps.iter().map(|g| g.len() * 4 + g.iter().map(|x| (*x as usize).min(50) / 10).sum::<usize>()).sum::<usize>()
        })
        .sum()
}
fn candidates(h: &[Run]) -> Vec<Vec<Run>> {
    let mut v = Vec::new();
    let n = h.len();
    // fewer earlier runs
    let mut step = (n - 1).div_ceil(2);
    while step > 0 && n > 1 {
        let mut i = 0;
        while i < n - 1 {
            let j = (i + step).min(n - 1);
            v.push([&h[..i], &h[j..]].concat());
            i = j;
        }
        if step == 1 {
            break;
        }
        step = step.div_ceil(2);
    }
    let edit = |i: usize, r: Run| {
        let mut x = h.to_vec();
        x[i] = r;
        x
    };
    for (i, r) in h.iter().enumerate().rev().take(4) {
        for t in 0..r.tasks.len() {
            if r.tasks.len() > 1 {
                let mut x = r.clone();
                x.tasks.remove(t);
                if t < x.gaps.len() {
                    x.gaps.remove(t);
                }
                v.push(edit(i, x));
            }
        }
        for t in 0..r.tasks.len() {
            let m = r.tasks[t].len();
            let mut step = m.div_ceil(2);
            while step > 0 {
                let mut a = 0;
                while a < m {
                    let b = (a + step).min(m);
                    if b - a < m {
                        let mut x = r.clone();
                        x.tasks[t].drain(a..b);
                        v.push(edit(i, x));
                    }
                    a = b;
                }
                if step == 1 {
                    break;
                }
                step = step.div_ceil(2);
            }
        }
        if r.world != 0 {
            let mut x = r.clone();
            x.world = 0;
            v.push(edit(i, x));
        }
        if !r.sched.is_empty() {
            for k in [0, r.sched.len() / 2, r.sched.len() - 1] {
                let mut x = r.clone();
                x.sched.truncate(k);
                v.push(edit(i, x));
            }
        }
        for g in 0..r.gaps.len() {
            for k in [0, r.gaps[g].len() / 2, r.gaps[g].len().saturating_sub(1)] {
                if k < r.gaps[g].len() {
                    let mut x = r.clone();
                    x.gaps[g].truncate(k);
                    v.push(edit(i, x));
                }
            }
        }
        for t in 0..r.tasks.len() {
            for o in 0..r.tasks[t].len() {
                for c in op_candidates(&r.tasks[t][o]) {
                    let mut x = r.clone();
                    x.tasks[t][o] = c;
                    v.push(edit(i, x));
                }
            }
        }
        for k in 0..r.sched.len() {
            if r.sched[k] != 0 {
                let mut x = r.clone();
                x.sched[k] = 0;
                v.push(edit(i, x));
            }
        }
    }
    v
}
fn op_candidates(o: &Op) -> Vec<Op> {
    let mut v = Vec::new();
    let mut with = |f: &dyn Fn(&mut Op)| {
        let mut x = o.clone();
        f(&mut x);
        v.push(x);
    };
    for i in 0..o.faults.len() {
        with(&|x| {
            x.faults.remove(i);
        });
        if let Fault::Nest(n) = &o.faults[i].1 {
            for c in op_candidates(n) {
                with(&|x| x.faults[i].1 = Fault::Nest(Box::new(c.clone())));
            }
        }
        match &o.faults[i].1 {
            Fault::ErrAfter(_) | Fault::ErrFull => with(&|x| x.faults[i].1 = Fault::ErrBefore),
            Fault::PanicAfter(_) => with(&|x| x.faults[i].1 = Fault::PanicBefore),
            Fault::Weird(n) if *n > 0 => with(&|x| x.faults[i].1 = Fault::Weird(n - 1)),
            Fault::ForkWaste(n) if *n > 1 => with(&|x| x.faults[i].1 = Fault::ForkWaste(1)),
            _ => {}
        }
    }
    for i in 0..o.rfaults.len() {
        with(&|x| {
            x.rfaults.remove(i);
        });
        if let RFault::Nest(n) = &o.rfaults[i].1 {
            for c in op_candidates(n) {
                with(&|x| x.rfaults[i].1 = RFault::Nest(Box::new(c.clone())));
            }
        }
    }
    if o.stuck.is_some() {
        with(&|x| x.stuck = None);
    }
    for i in 0..o.perm.len() {
        with(&|x| {
            x.perm.remove(i);
        });
    }
    for i in 0..o.flips.len() {
        with(&|x| {
            x.flips.remove(i);
        });
    }
    if o.nones > 0 {
        with(&|x| x.nones = 0);
    }
    if o.spans > 0 {
        with(&|x| x.spans = 0);
        with(&|x| x.spans = 1);
    }
    if !o.sink.is_empty() {
        with(&|x| x.sink.clear());
    }
    if !o.chan.is_empty() {
        with(&|x| x.chan.clear());
    }
    if o.entry != Entry::Whole {
        with(&|x| x.entry = Entry::Whole);
        if o.entry != Entry::Tail {
            with(&|x| x.entry = Entry::Tail);
        }
    }
    // the stream: drop token ranges, at every depth
    let parts = pieces(&o.src);
    let n = parts.len();
    let mut step = n.div_ceil(2);
    while step > 0 {
        let mut a = 0;
        while a < n {
            let b = (a + step).min(n);
            let s = [&parts[..a], &parts[b..]].concat().join(" ");
            if s.parse::<proc_macro2::TokenStream>().is_ok() {
                with(&|x| x.src = s.clone());
            }
            a += step.div_ceil(2).max(1);
        }
        if step == 1 {
            break;
        }
        step = step.div_ceil(2);
    }
    // matching delimiters
    for a in 0..n {
        if ["(", "[", "{"].contains(&parts[a].as_str()) {
            let mut d = 0;
            for b in a..n {
                match parts[b].as_str() {
                    "(" | "[" | "{" => d += 1,
                    ")" | "]" | "}" => d -= 1,
                    _ => {}
                }
                if d == 0 {
                    let s = [&parts[..a], &parts[b + 1..]].concat().join(" ");
                    with(&|x| x.src = s.clone());
                    let s = [&parts[..a], &parts[a + 1..b], &parts[b + 1..]].concat().join(" ");
                    with(&|x| x.src = s.clone());
                    break;
                }
            }
        }
    }
    v
}
/// tokens of a source text, joined punctuation kept together
fn pieces(s: &str) -> Vec<String> {
    use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
    fn go(ts: TokenStream, v: &mut Vec<String>) {
        let mut joint = false;
        for t in ts {
            let mut now = false;
            let s = match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    v.push(a.into());
                    go(g.stream(), v);
                    b.to_string()
                }
                TokenTree::Punct(p) => {
                    now = p.spacing() == Spacing::Joint;
                    p.as_char().to_string()
                }
                t => t.to_string(),
            };
            if joint {
                v.last_mut().unwrap().push_str(&s);
            } else {
                v.push(s);
            }
            joint = now;
        }
    }
    let mut v = Vec::new();
    if let Ok(ts) = s.parse() {
        go(ts, &mut v);
    }
    v
}
