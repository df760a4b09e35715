//! Judges the recorded history of an operation against the reference model.
use crate::ir::*;
use crate::model::{self, Expect, ME};
use crate::op::*;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Mismatch {
    /// kind of deviation
    pub aspect: &'static str,
    pub detail: String,
    /// which operation: task, index, callbacks it is nested in
    pub at: String,
    /// properties this deviation breaks
    pub props: BTreeSet<&'static str>,
}
impl Mismatch {
    /// stays the same while a failing run is being minimised
    pub fn class(&self) -> String {
        self.aspect.to_string()
    }
}
pub struct Judge<'a> {
    pub specs: &'a [Spec],
    pub feats: &'a [Feat],
}
/// counts of what the judged operations reached
#[derive(Default)]
pub struct Reach {
    pub cov: std::collections::BTreeMap<&'static str, u64>,
    pub fired: std::collections::BTreeMap<&'static str, u64>,
    pub chan: std::collections::BTreeMap<String, u64>,
    pub ops: u64,
    pub nested: u64,
    pub calls: u64,
    pub peeks: u64,
    pub renders: u64,
    pub roundtrips: u64,
}
impl Judge<'_> {
    pub fn run(&self, run: &Run, outs: &[Vec<Outcome>], reach: &mut Reach) -> Vec<Mismatch> {
        let mut v = Vec::new();
        for (t, (ops, outs)) in run.tasks.iter().zip(outs).enumerate() {
            for (i, (op, out)) in ops.iter().zip(outs).enumerate() {
                self.op(op, out, &format!("task {t} op {i}"), reach, &mut v);
            }
        }
        v
    }
    pub fn op(&self, op: &Op, out: &Outcome, at: &str, reach: &mut Reach, v: &mut Vec<Mismatch>) {
        let e = model::expect(self.specs, op);
        if e.heavy {
            return;
        }
        reach.ops += 1;
        reach.calls += out.events.len() as u64;
        reach.peeks += out.peeks as u64;
        for c in &e.cov {
            *reach.cov.entry(c).or_default() += 1;
        }
        for f in &out.fired {
            *reach.fired.entry(f).or_default() += 1;
        }
        for c in &op.chan {
            *reach.chan.entry(c.clone()).or_default() += 1;
        }
        if op.nones > 0 {
            *reach.chan.entry("group_without_delimiters".into()).or_default() += 1;
        }
        if op.spans > 0 {
            *reach.chan.entry("token_places_lost".into()).or_default() += 1;
        }
        if e.uncertain {
            *reach.cov.entry("uncertain").or_default() += 1;
        }
        let mut m = Vec::new();
        self.result(op, &e, out, &mut m);
        if let (Some(r), Ok((mv, _))) = (&out.render, &e.res)
            && m.is_empty()
        {
            reach.renders += 1;
            self.render(op, mv, r, &e, reach, &mut m);
        }
        for (aspect, detail, props) in m {
            v.push(Mismatch {
                aspect,
                detail,
                at: at.to_string(),
                props,
            });
        }
        for (render, inv, o) in &out.nested {
            let f = if *render {
                op.rfaults.iter().find_map(|x| match x {
                    (i, RFault::Nest(o)) if i == inv => Some(o),
                    _ => None,
                })
            } else {
                op.faults.iter().find_map(|x| match x {
                    (i, Fault::Nest(o)) if i == inv => Some(o),
                    _ => None,
                })
            };
            if let Some(n) = f {
                reach.nested += 1;
                let w = if *render { "renderer" } else { "parser" };
                self.op(n, o, &format!("{at} / inside {w} call {inv}"), reach, v);
            }
        }
    }
    /// the properties that speak about a deviation in the parse of this type
    fn family(&self, op: &Op, e: &Expect) -> BTreeSet<&'static str> {
        let f = &self.feats[op.spec];
        let mut s = BTreeSet::new();
        let cov = |n: &[&str]| n.iter().any(|n| e.cov.contains(n));
        if f.sm {
            s.insert("C01");
            if f.written {
                s.insert("C13");
            }
            if cov(&["duplicate_rest", "duplicate_named", "missing_named", "absent_optional", "too_few_positional"])
                || op
                    .chan
                    .iter()
                    .any(|c| ["drop", "duplicate", "reorder", "swap"].iter().any(|x| c.contains(x)))
            {
                s.insert("C03");
            }
        }
        if f.spec_variants {
            s.insert("C04");
        }
        if f.peek_variants {
            s.insert("C05");
        }
        if f.groups || f.name_args {
            let g = cov(&[
                "group",
                "macro_group",
                "named_args",
                "rest_args",
                "leftover_in_group",
                "leftover_in_kept_alternative",
                "leftover_in_discarded_alternative",
            ]);
            if g || matches!(e.res, Err(ME::Own("delimiter" | "paren" | "leftover in group"))) {
                s.insert("C06");
            }
        }
        if s.is_empty() {
            s.insert("C02");
        }
        s
    }
    fn result(
        &self,
        op: &Op,
        e: &Expect,
        out: &Outcome,
        m: &mut Vec<(&'static str, String, BTreeSet<&'static str>)>,
    ) {
        // the derived code itself never panics
        if let Res::Panic { inv: None, msg } = &out.res {
            let mut p = BTreeSet::from(["C09"]);
            match &e.res {
                Ok(_) => p.extend(self.family(op, e)),
                Err(ME::Probe(_)) => {
                    p.insert("C02");
                }
                _ => {}
            }
            m.push(("panic", format!("panicked: {msg}; expected {}", show(&e.res)), p));
            return;
        }
        if e.uncertain {
            return;
        }
        // no more steps than the documented rules need, by any stretch
        if e.lenient.is_none() && out.events.len() > 3 * e.events.len() + 8 {
            m.push((
                "steps",
                format!("{} field parser calls where {} are due", out.events.len(), e.events.len()),
                BTreeSet::from(["C09"]),
            ));
        }
        let fam = || self.family(op, e);
        if let Some(k) = e.lenient {
            // a repeated argument: must fail, when exactly is open
            match &out.res {
                Res::Ok { canon, .. } => {
                    m.push(("accepted", format!("accepted a repeated argument as {canon}"), fam()));
                    return;
                }
                Res::Panic { inv: Some(i), .. } if *i < k => {
                    m.push(("calls", format!("panic of field parser call {i}, before the repeated argument"), fam()));
                    return;
                }
                _ => {}
            }
            let n = k.min(e.events.len());
            if out.events.len() < n || out.events[..n] != e.events[..n] {
                m.push(("calls", calls(&e.events[..n], &out.events), fam()));
            }
            return;
        }
        let with = |x: &'static str| {
            let mut s = fam();
            s.insert(x);
            s
        };
        match (&e.res, &out.res) {
            (Ok((mv, tail)), Res::Ok { canon, tail: t }) => {
                if mv.canon != *canon {
                    m.push(("value", format!("expected {} got {canon}", mv.canon), fam()));
                } else if tail != t {
                    m.push(("position", format!("stream position: expected rest {tail:?} got {t:?}"), fam()));
                }
            }
            (Ok((mv, _)), r) => m.push((
                "rejected",
                format!("expected {} got {}", mv.canon, show_res(r)),
                fam(),
            )),
            (Err(ME::Probe(_)), r @ Res::Ok { .. }) => m.push((
                "accepted",
                format!("expected {} got {}", show(&e.res), show_res(r)),
                with("C02"),
            )),
            (Err(_), r @ Res::Ok { .. }) => m.push((
                "accepted",
                format!("expected {} got {}", show(&e.res), show_res(r)),
                fam(),
            )),
            (Err(ME::Probe(i)), r) => {
                let ok = match r {
                    // its location is part of what makes it the parser's own
                    Res::Err { own: Some(j), .. } => i == j,
                    _ => false,
                };
                if !ok {
                    let mut p = BTreeSet::from(["C02"]);
                    let f = &self.feats[op.spec];
                    if f.peek_variants && e.cov.contains("error_after_commit") {
                        p.insert("C05");
                    }
                    m.push((
                        "error",
                        format!(
                            "expected the error of field parser call {i} at byte {} got {}",
                            e.events[*i].1,
                            show_res(r)
                        ),
                        p,
                    ));
                }
            }
            (Err(ME::Own(_)), r) => {
                if let (Some(h), Res::Err { own: None, msg, .. }, ME::Own("unknown name")) = (&e.hint, r, &e.res.as_ref().unwrap_err()) {
                    let named = |p: &String| msg.contains(&format!("`{p}`"));
                    let bad = h.params.iter().find(|p| named(p) && Some(*p) != h.allowed.as_ref());
                    let p14 = BTreeSet::from(["C14"]);
                    if let Some(p) = bad {
                        m.push((
                            "hint",
                            format!("`{}` was taken for `{p}`, similar and closest is {:?}: {msg}", h.name, h.allowed),
                            p14,
                        ));
                    } else if h.must && !h.allowed.as_ref().is_some_and(named) {
                        m.push((
                            "hint",
                            format!("no hint for `{}` although only {:?} is similar: {msg}", h.name, h.allowed),
                            p14,
                        ));
                    }
                }
                if !matches!(r, Res::Err { own: None, .. }) {
                    let mut p = with("C02");
                    if !matches!(r, Res::Panic { .. }) {
                        p = fam();
                        p.insert("C02");
                    }
                    m.push(("error", format!("expected {} got {}", show(&e.res), show_res(r)), p));
                }
            }
            (Err(ME::Any), r) => {
                if !matches!(r, Res::Err { .. }) {
                    m.push(("error", format!("expected an error got {}", show_res(r)), fam()));
                }
            }
            (Err(ME::Panic(i)), r) => {
                if !matches!(r, Res::Panic { inv: Some(j), .. } if i == j) {
                    m.push(("error", format!("expected {} got {}", show(&e.res), show_res(r)), with("C02")));
                }
            }
        }
        if m.iter().all(|x| x.0 == "steps") && e.events != out.events {
            m.push(("calls", calls(&e.events, &out.events), with("C02")));
        }
    }
    fn render(
        &self,
        op: &Op,
        mv: &model::Mv,
        r: &RenderOut,
        e: &Expect,
        reach: &mut Reach,
        m: &mut Vec<(&'static str, String, BTreeSet<&'static str>)>,
    ) {
        let p = |v: &[&'static str]| v.iter().copied().collect::<BTreeSet<_>>();
        // which injected abort must surface
        let stop = op
            .rfaults
            .iter()
            .filter(|f| !matches!(f.1, RFault::Nest(_)) && f.0 < mv.probes.len())
            .map(|f| f.0)
            .min();
        match (stop, r.panic) {
            (None, None) => {}
            (Some(a), Some(Some(b))) if a == b => {}
            (_, Some(None)) => {
                m.push(("render_panic", "rendering panicked".into(), p(&["C07", "C09"])));
                return;
            }
            (a, b) => {
                m.push(("render_calls", format!("expected abort {a:?} got {b:?}"), p(&["C07"])));
                return;
            }
        }
        let want: &[(Leaf, usize)] = match stop {
            Some(i) => &mv.probes[..i + 1],
            None => &mv.probes,
        };
        if want != r.events {
            m.push(("render_calls", calls(want, &r.events), p(&["C07"])));
            return;
        }
        let full = match &r.again {
            None => return,
            Some(Err(x)) => {
                m.push(("render_panic", format!("second rendering panicked: {x}"), p(&["C07", "C09"])));
                return;
            }
            Some(Ok(f)) => f,
        };
        let text = full.join(" ");
        if text != mv.text {
            let mut q = p(&["C07"]);
            q.insert("C12");
            m.push(("rendered", format!("expected `{}` got `{text}`", mv.text), q));
            return;
        }
        if op.spans == 0 && op.nones == 0 && r.places != mv.places {
            let d = format!("rendered `{text}`: tokens at {:?} got {:?}", mv.places, r.places);
            m.push(("places", d, p(&["C12"])));
            return;
        }
        let prior = crate::grammar::flat_list(&op.sink.parse::<TokenStream>().unwrap());
        let mut all = prior.clone();
        all.extend(full.iter().cloned());
        let ok = if stop.is_some() {
            // a group that was being filled may be missing or partly filled
            r.sink.len() >= prior.len() && r.sink[..prior.len()] == prior[..] && {
                let extra = &r.sink[prior.len()..];
                let n = extra.len();
                n <= full.len()
                    && (extra == &full[..n] || (n > 0 && extra[..n - 1] == full[..n - 1] && group_prefix(&extra[n - 1], &full[n - 1])))
            }
        } else {
            r.sink == all
        };
        if !ok {
            m.push((
                "sink",
                format!("sink: prior {prior:?}, output {full:?}, got {:?}", r.sink),
                p(&["C07"]),
            ));
            return;
        }
        // second parse
        if let Ok(ts) = r.text.parse::<TokenStream>() {
            let toks: Vec<TokenTree> = ts.into_iter().collect();
            let e2 = model::run(self.specs, op.spec, toks, None, true);
            if e2.uncertain || e2.heavy || e2.lenient.is_some() {
                return;
            }
            reach.roundtrips += 1;
            let _ = e;
            let bad = match (&e2.res, &r.reparse) {
                (Ok((v, tail)), Res::Ok { canon, tail: t }) => {
                    let tail = tail.as_deref().unwrap_or("").split_once(':').map_or("", |x| x.1);
                    crate::exec::strip_offsets(&v.canon) != *canon
                        || *t != Some(format!("{} | {}", v.text, tail))
                }
                (Err(_), Res::Err { .. }) => false,
                _ => true,
            };
            if bad {
                m.push((
                    "roundtrip",
                    format!("rendered `{}`; parsing it again: expected {} got {}", r.text, show(&e2.res), show_res(&r.reparse)),
                    p(&["C12"]),
                ));
            }
        }
    }
}
/// a group whose content was only partly written
fn group_prefix(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().next(), b.chars().next()) else {
        return false;
    };
    if x != y || !"([{".contains(x) || a.len() < 3 || b.len() < 3 {
        return false;
    }
    let (a, b) = (a[1..a.len() - 1].trim(), b[1..b.len() - 1].trim());
    if b.starts_with(a) {
        return true;
    }
    // the innermost one may be open
    let common: usize = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).map(|x| x.0.len_utf8()).sum();
    a[common..].chars().all(|c| ")]} ".contains(c))
}
fn calls(e: &[(Leaf, usize)], g: &[(Leaf, usize)]) -> String {
    let f = |v: &[(Leaf, usize)]| {
        v.iter()
            .map(|x| format!("{}@{}", x.0.name(), x.1))
            .collect::<Vec<_>>()
            .join(" ")
    };
    format!("field calls: expected [{}] got [{}]", f(e), f(g))
}
fn show(r: &Result<(model::Mv, Option<String>), ME>) -> String {
    match r {
        Ok((v, t)) => format!("value {} rest {t:?}", v.canon),
        Err(ME::Probe(i)) => format!("the error of field parser call {i}"),
        Err(ME::Own(s)) => format!("an error ({s})"),
        Err(ME::Any) => "an error".into(),
        Err(ME::Panic(i)) => format!("the panic of field parser call {i}"),
    }
}
fn show_res(r: &Res) -> String {
    match r {
        Res::Ok { canon, tail } => format!("value {canon} rest {tail:?}"),
        Res::Err { own: Some(i), at, .. } => format!("the error of field parser call {i} at byte {at}"),
        Res::Err { msg, .. } => format!("error `{msg}`"),
        Res::Panic { inv: Some(i), .. } => format!("the panic of field parser call {i}"),
        Res::Panic { msg, .. } => format!("panic `{msg}`"),
    }
}
