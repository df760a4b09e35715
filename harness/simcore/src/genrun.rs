//! Seeded generator of runs: which operations, which faults, which schedule.
use crate::input::Gen;
use crate::ir::*;
use crate::model;
use crate::op::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Profile {
    pub want: fn(&Feat, &Spec) -> bool,
    /// percent of specs taken without regard to `want`
    pub any_pct: usize,
    /// argument-level damage, token-level damage, foreign input (percent)
    pub chan: usize,
    pub corrupt: usize,
    pub foreign: usize,
    /// percent of operations with field parser faults
    pub fault: usize,
    /// weights: err before, err midway, err after, panic before, panic midway,
    /// zero read, other read, abandoned fork, nested op
    pub kinds: [usize; 9],
    pub perm: usize,
    /// percent of operations whose field parsers stop reading
    pub stuck: usize,
    pub flip: usize,
    /// percent of operations with renderer faults; weights: panic before,
    /// midway, nested
    pub render: usize,
    pub rkinds: [usize; 3],
    /// percent of disturbed renderings that are not repeated
    pub once: usize,
    /// operations in a single-task run
    pub ops: (usize, usize),
    /// percent of runs with several tasks
    pub multi: usize,
    /// percent of runs with several tasks in which all do the same few
    /// operations, often switching
    pub collide: usize,
    /// percent of runs that are one long history
    pub soak: usize,
    /// percent of operations with a long stream
    pub long: usize,
    /// percent of operations whose stream is then fed to a similar type
    pub echo: usize,
    /// percent of operations of a single-task run on one of two types
    pub base: usize,
    /// percent of argument damages that hit a character of a name
    pub typo: usize,
    /// percent of argument damages that change an argument's style
    pub restyle: usize,
}
const BASE: Profile = Profile {
    want: |_, _| true,
    any_pct: 5,
    chan: 25,
    corrupt: 22,
    foreign: 6,
    fault: 45,
    kinds: [20, 15, 12, 3, 3, 12, 20, 10, 5],
    perm: 6,
    stuck: 1,
    flip: 0,
    render: 10,
    rkinds: [40, 40, 20],
    once: 0,
    ops: (4, 10),
    multi: 8,
    collide: 6,
    soak: 0,
    long: 1,
    echo: 4,
    base: 0,
    typo: 8,
    restyle: 10,
};
pub fn profile(prop: &str) -> Profile {
    let b = BASE;
    match prop {
        "C01" => Profile {
            want: |f, s| s.is_sm() && f.sm,
            chan: 35,
            kinds: [8, 8, 8, 2, 2, 22, 36, 10, 4],
            fault: 40,
            ..b
        },
        "C02" => Profile {
            want: |_, _| true,
            fault: 80,
            kinds: [30, 28, 28, 0, 0, 3, 5, 3, 3],
            chan: 15,
            corrupt: 12,
            ..b
        },
        "C03" => Profile {
            want: |f, s| s.is_sm() && f.sm && matches!(&s.body, Body::Sm(b) if b.fields.iter().any(|f| matches!(f.role, Role::Named | Role::Rest))),
            chan: 80,
            corrupt: 6,
            fault: 20,
            ..b
        },
        "C04" => Profile {
            want: |f, _| f.spec_variants,
            fault: 55,
            kinds: [25, 25, 18, 2, 2, 8, 10, 8, 2],
            perm: 10,
            foreign: 14,
            ..b
        },
        "C05" => Profile {
            want: |f, _| f.peek_variants,
            fault: 45,
            flip: 25,
            foreign: 14,
            kinds: [25, 20, 15, 2, 2, 8, 16, 10, 2],
            ..b
        },
        "C06" => Profile {
            want: |f, _| f.groups || f.name_args,
            fault: 55,
            kinds: [8, 8, 6, 1, 1, 28, 40, 6, 2],
            corrupt: 40,
            ..b
        },
        "C07" => Profile {
            want: |_, s| s.renders(),
            fault: 20,
            corrupt: 6,
            foreign: 2,
            render: 60,
            ..b
        },
        "C08" => Profile {
            fault: 45,
            kinds: [14, 12, 10, 8, 8, 6, 8, 8, 26],
            render: 35,
            rkinds: [25, 40, 35],
            once: 50,
            base: 60,
            echo: 22,
            multi: 70,
            collide: 22,
            soak: 8,
            typo: 20,
            ..b
        },
        "C09" => Profile {
            fault: 55,
            kinds: [10, 10, 8, 6, 6, 36, 14, 6, 4],
            corrupt: 35,
            foreign: 12,
            multi: 20,
            soak: 6,
            long: 8,
            stuck: 14,
            render: 20,
            ..b
        },
        "C14" => Profile {
            want: |f, s| s.is_sm() && f.sm && matches!(&s.body, Body::Sm(b) if b.fields.iter().any(|f| f.role == Role::Named)),
            chan: 95,
            corrupt: 3,
            fault: 10,
            foreign: 3,
            typo: 80,
            render: 0,
            perm: 1,
            ..b
        },
        "C13" => Profile {
            want: |f, s| s.is_sm() && f.written,
            chan: 65,
            restyle: 65,
            typo: 3,
            corrupt: 6,
            fault: 20,
            foreign: 4,
            render: 0,
            ..b
        },
        "C12" => Profile {
            want: |_, s| s.renders(),
            fault: 45,
            kinds: [22, 20, 14, 1, 1, 12, 20, 8, 2],
            corrupt: 10,
            render: 5,
            ..b
        },
        _ => b,
    }
}
pub struct World {
    pub specs: Vec<Spec>,
    pub feats: Vec<Feat>,
    /// built specs
    pub live: Vec<usize>,
    /// the built variations of the same definition, per spec
    pub kin: Vec<Vec<usize>>,
}
impl World {
    pub fn new(specs: Vec<Spec>, live: Vec<usize>) -> World {
        let feats = specs.iter().map(|s| s.feat(&specs)).collect();
        let root = |mut i: usize| {
            while let Some(k) = specs[i].kin {
                i = k;
            }
            i
        };
        let roots: Vec<usize> = (0..specs.len()).map(root).collect();
        let kin = (0..specs.len())
            .map(|i| live.iter().copied().filter(|j| *j != i && roots[*j] == roots[i]).collect())
            .collect();
        World { specs, feats, live, kin }
    }
}
fn pick_spec(w: &World, p: &Profile, r: &mut Rng) -> usize {
    for _ in 0..200 {
        let id = *r.pick(&w.live);
        if r.pct(p.any_pct) || (p.want)(&w.feats[id], &w.specs[id]) {
            return id;
        }
    }
    w.live[0]
}
/// a few types a history keeps coming back to
fn pick_base(w: &World, p: &Profile, r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    for _ in 0..n {
        let kin: Vec<usize> = v.iter().flat_map(|i| w.kin[*i].iter().copied()).collect();
        if !kin.is_empty() && r.pct(60) {
            v.push(*r.pick(&kin));
            continue;
        }
        let mut i = pick_spec(w, p, r);
        if n > 1 && r.pct(50) {
            // preferably one that has variations
            for _ in 0..6 {
                if !w.kin[i].is_empty() {
                    break;
                }
                i = pick_spec(w, p, r);
            }
        }
        v.push(i);
    }
    v
}
fn gen_src(w: &World, p: &Profile, r: &mut Rng, spec: usize, short: bool) -> (String, Vec<String>) {
    let chan_pct = p.chan;
    let corrupt = p.corrupt;
    let foreign = r.pct(p.foreign);
    let long = r.pct(p.long) && !short;
    let other = if !foreign {
        spec
    } else if !w.kin[spec].is_empty() && r.pct(50) {
        *r.pick(&w.kin[spec])
    } else {
        *r.pick(&w.live)
    };
    let k = r.below(100);
    let times = 1 + r.weighted(&[75, 25]);
    let dam = r.pct(corrupt);
    let mut g = Gen {
        r,
        specs: &w.specs,
        n: 0,
        depth: 0,
        chan_pct,
        chan: vec![],
        many: 0,
        deep: 5,
        made: 0,
        typo: p.typo,
        restyle: p.restyle,
    };
    let huge = long && g.r.pct(50);
    if huge {
        g.many = *g.r.pick(&[20, 70, 140, 300, 560]);
    } else if long {
        g.deep = 26;
    }
    let mut pieces = if foreign && k < 30 {
        g.soup()
    } else {
        g.spec(other)
    };
    if foreign {
        g.chan.push("foreign_stream".into());
    }
    if huge && g.many == 0 {
        g.chan.push("long_list".into());
    } else if long && !pieces.is_empty() {
        // many arguments
        let one = pieces.clone();
        for _ in 0..if one.len() < 80 { 30 } else { 3 } {
            pieces.push(",".into());
            pieces.extend(one.iter().cloned());
        }
        g.chan.push("duplicate".into());
    }
    if dam {
        for _ in 0..times {
            g.corrupt(&mut pieces);
        }
    }
    let t = g.text(&pieces);
    (t, g.chan)
}
pub fn gen_op(w: &World, p: &Profile, r: &mut Rng, spec: usize, nest: usize) -> Op {
    let (src, chan) = gen_src(w, p, r, spec, false);
    let entry = ENTRIES[r.weighted(&[30, 40, 15, 15])];
    let mut op = Op {
        spec,
        entry,
        src,
        faults: vec![],
        perm: vec![],
        stuck: None,
        flips: vec![],
        rfaults: vec![],
        sink: String::new(),
        once: false,
        spans: if r.pct(7) { 1 + r.weighted(&[50, 20, 15, 15]) as u8 } else { 0 },
        // an expression of syn differs by the groups in it
        nones: if !w.feats[spec].syntax && r.pct(8) { 1 + r.below(1 << 20) as u32 } else { 0 },
        chan,
    };
    let mut e = model::expect(&w.specs, &op);
    for _ in 0..4 {
        if !e.heavy {
            break;
        }
        (op.src, op.chan) = gen_src(w, p, r, spec, true);
        e = model::expect(&w.specs, &op);
    }
    if e.heavy {
        (op.src, op.chan) = (String::new(), vec![]);
        e = model::expect(&w.specs, &op);
    }
    let calls = e.events.len();
    if calls > 0 && r.pct(p.fault) {
        let n = 1 + r.weighted(&[62, 26, 12]);
        for _ in 0..n {
            // some fall behind the calls of the undisturbed run
            let inv = r.below(calls + calls / 4 + 1);
            if op.faults.iter().any(|f| f.0 == inv) {
                continue;
            }
            let f = match r.weighted(&p.kinds) {
                0 => Fault::ErrBefore,
                1 => Fault::ErrAfter(1 + r.below(3)),
                2 => Fault::ErrFull,
                3 => Fault::PanicBefore,
                4 => Fault::PanicAfter(1 + r.below(2)),
                5 => Fault::Weird(0),
                6 => Fault::Weird(1 + r.weighted(&[40, 25, 15, 10, 10])),
                7 => Fault::ForkWaste(1 + r.below(3)),
                _ => {
                    if nest > 1 {
                        continue;
                    }
                    let s = if r.pct(40) { spec } else { pick_spec(w, p, r) };
                    Fault::Nest(Box::new(gen_op(w, p, r, s, nest + 1)))
                }
            };
            op.faults.push((inv, f));
        }
        op.faults.sort_by_key(|f| f.0);
    }
    if calls > 0 && r.pct(p.perm) {
        for _ in 0..1 + r.below(2) {
            let o = e.events[r.below(calls)].1;
            if o != 0 && !op.perm.contains(&o) {
                op.perm.push(o);
            }
        }
    }
    let sep = op.chan.iter().any(|c| c == "corrupt_separator");
    if r.pct(if sep && p.stuck > 0 { 60 } else { p.stuck }) {
        // often only what should not be called any more is
        op.stuck = Some(match r.below(10) {
            0..3 => 0,
            3..7 => calls,
            _ => r.below(calls + 1),
        });
    }
    if p.flip > 0 && r.pct(p.flip) {
        let offs = offsets(&op);
        for _ in 0..1 + r.below(2) {
            if !offs.is_empty() {
                let o = offs[r.below(offs.len().min(4))];
                if !op.flips.contains(&o) {
                    op.flips.push(o);
                }
            }
        }
    }
    if model::expect(&w.specs, &op).heavy {
        op.faults.clear();
        op.perm.clear();
        op.stuck = None;
        op.flips.clear();
    }
    if w.specs[spec].renders() {
        if r.pct(40) {
            op.sink = r.pick(&["prior", "a, b(c)", "{ x } =>", "1 -"]).to_string();
        }
        if r.pct(p.render) {
            let n = match &model::expect(&w.specs, &op).res {
                Ok((v, _)) => v.probes.len(),
                _ => 0,
            };
            if n > 0 {
                let inv = r.below(n);
                let f = match r.weighted(&p.rkinds) {
                    0 => RFault::PanicBefore,
                    1 => RFault::PanicAfter(r.below(2)),
                    _ if nest < 2 => {
                        let s = if r.pct(40) { spec } else { pick_spec(w, p, r) };
                        RFault::Nest(Box::new(gen_op(w, p, r, s, nest + 1)))
                    }
                    _ => RFault::PanicBefore,
                };
                op.rfaults.push((inv, f));
                op.once = r.pct(p.once);
            }
        }
    }
    op
}
/// sometimes the last stream again, to a similar type
fn echo(w: &World, p: &Profile, r: &mut Rng, t: &mut Vec<Op>) {
    let op = t.last().unwrap();
    if !r.pct(p.echo) || w.kin[op.spec].is_empty() {
        return;
    }
    let spec = *r.pick(&w.kin[op.spec]);
    let op = Op {
        spec,
        faults: vec![],
        perm: vec![],
        stuck: None,
        flips: vec![],
        rfaults: vec![],
        sink: String::new(),
        once: false,
        nones: if w.feats[spec].syntax { 0 } else { op.nones },
        chan: vec!["foreign_stream".into()],
        ..op.clone()
    };
    if !model::expect(&w.specs, &op).heavy {
        t.push(op);
    }
}
/// byte offsets of the top-level tokens
pub fn offsets(op: &Op) -> Vec<usize> {
    let ts = op.tokens();
    let top: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
    fn inner(t: &proc_macro2::TokenTree) -> Vec<proc_macro2::TokenTree> {
        match t {
            proc_macro2::TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => vec![],
        }
    }
    let v = match op.entry {
        Entry::Whole | Entry::Tail => top,
        Entry::Group => inner(&top[0]),
        Entry::Attr => inner(&inner(&top[1])[1]),
    };
    v.iter().map(crate::grammar::off).filter(|o| *o != 0).collect()
}
/// All tasks do the same few operations, half of the time such that are
/// refused, and switch often.
fn collide(w: &World, p: &Profile, r: &mut Rng, tasks: usize, base: &[usize], run: &mut Run) {
    let refused = r.pct(60);
    let q = Profile {
        fault: if r.pct(70) { 0 } else { p.fault },
        chan: if refused { 90 } else { p.chan },
        long: 0,
        ..p.clone()
    };
    let n = r.range(1, 4);
    let mut ops: Vec<Op> = Vec::new();
    for _ in 0..n * 6 {
        let s = if r.pct(40) { *r.pick(base) } else { pick_spec(w, p, r) };
        let o = gen_op(w, &q, r, s, 0);
        if !refused || matches!(model::expect(&w.specs, &o).res, Err(model::ME::Own(_))) {
            ops.push(o);
        }
        if ops.len() == n {
            break;
        }
    }
    if ops.is_empty() {
        ops.push(gen_op(w, &q, r, base[0], 0));
    }
    let scale = *r.pick(&[2usize, 5, 12, 40]);
    for _ in 0..tasks {
        run.tasks.push((0..r.range(2, 7)).map(|_| r.pick(&ops).clone()).collect());
        run.gaps.push((0..r.range(20, 90)).map(|_| r.below(scale) as u32).collect());
    }
    let stay = *r.pick(&[20, 50, 80]);
    run.sched = (0..r.range(20, 120))
        .map(|_| if r.pct(stay) { 0 } else { 1 + r.below(3) as u8 })
        .collect();
}
pub fn gen_run(w: &World, p: &Profile, seed: u64, k: u64) -> Run {
    let mut r = Rng::sub(seed, 0x12B5, k);
    let r = &mut r;
    let mut run = Run::default();
    run.world = (Rng::sub(seed, 0x5EA, k).next() >> 33) as u32;
    // swarm: vary the mix per run
    let mut p = p.clone();
    if r.pct(25) {
        p.fault = 0;
        p.perm = 0;
        p.stuck = 0;
        p.flip = 0;
        p.render = 0;
    }
    if r.pct(20) {
        p.chan = 0;
        p.corrupt = 0;
        p.foreign = 0;
    }
    for x in p.kinds.iter_mut() {
        if r.pct(25) {
            *x = 0;
        }
    }
    if p.kinds.iter().all(|x| *x == 0) {
        p.kinds[0] = 1;
    }
    if r.pct(p.soak) {
        // one long history, mostly of the same few types
        let base = pick_base(w, &p, r, 3);
        let n = r.range(60, 200);
        let mut t = Vec::new();
        if r.pct(45) {
            // a storm: the same few operations fail over and over
            let q = Profile {
                fault: 60,
                kinds: [10, 10, 8, 16, 14, 2, 2, 2, 0],
                render: 75,
                rkinds: [45, 55, 0],
                once: 90,
                long: 0,
                ..p.clone()
            };
            let ops: Vec<Op> = (0..r.range(1, 3))
                .map(|_| {
                    let s = *r.pick(&base);
                    gen_op(w, &q, r, s, 0)
                })
                .filter(|o| model::expect(&w.specs, o).events.len() < 30)
                .collect();
            for _ in 0..if ops.is_empty() { 0 } else { r.range(60, 300) } {
                t.push(r.pick(&ops).clone());
            }
            for _ in 0..12 {
                let s = if r.pct(80) { *r.pick(&base) } else { pick_spec(w, &p, r) };
                t.push(gen_op(w, &p, r, s, 0));
            }
            run.tasks.push(t);
            return run;
        }
        for _ in 0..n {
            let s = if r.pct(80) { *r.pick(&base) } else { pick_spec(w, &p, r) };
            t.push(gen_op(w, &p, r, s, 0));
            echo(w, &p, r, &mut t);
        }
        run.tasks.push(t);
        return run;
    }
    let tasks = if r.pct(p.multi) { r.range(2, 4) } else { 1 };
    let base = pick_base(w, &p, r, 2);
    if tasks > 1 && r.pct(p.collide) {
        collide(w, &p, r, tasks, &base, &mut run);
        return run;
    }
    for _ in 0..tasks {
        let n = if tasks == 1 {
            r.range(p.ops.0, p.ops.1)
        } else {
            r.range(1, 4)
        };
        let mut t = Vec::new();
        for _ in 0..n {
            let s = if r.pct(if tasks > 1 { 60 } else { p.base }) {
                *r.pick(&base)
            } else {
                pick_spec(w, &p, r)
            };
            t.push(gen_op(w, &p, r, s, 0));
            echo(w, &p, r, &mut t);
        }
        run.tasks.push(t);
    }
    if tasks > 1 {
        let stay = *r.pick(&[30, 55, 80]);
        let n = r.range(6, 60);
        run.sched = (0..n)
            .map(|_| {
                if r.pct(stay) {
                    0
                } else {
                    1 + r.below(3) as u8
                }
            })
            .collect();
        for _ in 0..tasks {
            let mut g = Vec::new();
            if r.pct(70) {
                let scale = *r.pick(&[3usize, 12, 60, 300]);
                for _ in 0..r.range(1, 12) {
                    g.push(r.below(scale) as u32);
                }
            }
            run.gaps.push(g);
        }
    }
    run
}
