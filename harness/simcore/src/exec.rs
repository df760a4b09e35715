//! Executes runs against the real derived code.
use crate::ctx::{self, InjPanic};
use crate::grammar::{flat_list, flat_ts};
use crate::op::{Entry, Op, Outcome, RenderOut, Res, Run};
use crate::sched::{self, Sim, Stats};
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::any::Any;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex, OnceLock};
use syn::parse::{ParseStream, Parser};

pub trait DynVal {
    fn canon(&self, o: &mut String);
    fn render(&self) -> Option<&dyn ToTokens>;
}
pub type ParseFn = fn(ParseStream) -> syn::Result<Box<dyn DynVal>>;
/// entry points of the generated types, by spec id
pub static TABLE: OnceLock<Vec<Option<ParseFn>>> = OnceLock::new();
/// the run in progress, for the monitor
pub static CURRENT: Mutex<Option<Arc<Run>>> = Mutex::new(None);

fn panic_res(p: Box<dyn Any + Send>, depth: usize, render: bool) -> (Option<usize>, String) {
    if let Some(i) = p.downcast_ref::<InjPanic>() {
        if i.depth == depth && i.render == render {
            return (Some(i.inv), "injected".into());
        }
        return (None, format!("stray injected panic {}:{}", i.depth, i.inv));
    }
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    (None, m)
}
fn err_res(e: syn::Error, depth: usize) -> Res {
    let n = e.clone().into_iter().count();
    let msg = e.to_string();
    let at = e.span().byte_range().start;
    let own = ctx::own_inv(&e, depth);
    Res::Err {
        own,
        at,
        // without the nesting depth
        msg: if own.is_some() {
            "own".to_string()
        } else if n == 1 {
            msg
        } else { format!("{n} errors: {msg}") },
    }
}
fn parse_entry(entry: Entry, f: ParseFn, ts: TokenStream) -> syn::Result<(Box<dyn DynVal>, Option<TokenStream>)> {
    match entry {
        Entry::Whole => f.parse2(ts).map(|v| (v, None)),
        Entry::Tail => (|i: ParseStream| {
            let v = f(i)?;
            let t: TokenStream = i.parse()?;
            Ok((v, Some(t)))
        })
        .parse2(ts),
        Entry::Group => (|i: ParseStream| {
            let c;
            syn::parenthesized!(c in i);
            let v = f(&c)?;
            let t: TokenStream = c.parse()?;
            let _: syn::Ident = i.parse()?;
            let _: syn::LitInt = i.parse()?;
            Ok((v, Some(t)))
        })
        .parse2(ts),
        Entry::Attr => {
            let a = {
                let _s = Sim::new();
                syn::Attribute::parse_outer.parse2(ts)?
            };
            a[0].parse_args_with(f).map(|v| (v, None))
        }
    }
}
pub fn strip_offsets(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '@' {
            while it.peek().is_some_and(|c| c.is_ascii_digit()) {
                it.next();
            }
        } else {
            o.push(c);
        }
    }
    o
}
pub fn run_op(op: &Op) -> Outcome {
    let sim = Sim::new();
    let f = TABLE.get().unwrap()[op.spec].expect("spec not built");
    let ts = op.stream();
    let depth = ctx::push(op);
    let prev = sched::op_begin();
    drop(sim);
    sched::yield_point();
    let r = catch_unwind(AssertUnwindSafe(|| parse_entry(op.entry, f, ts)));
    let sim = Sim::new();
    let events = ctx::top(|f| std::mem::take(&mut f.events)).unwrap();
    let mut render = None;
    let res = match r {
        Err(p) => {
            let (inv, msg) = panic_res(p, depth, false);
            Res::Panic { inv, msg }
        }
        Ok(Err(e)) => err_res(e, depth),
        Ok(Ok((v, tail))) => {
            let mut canon = String::new();
            v.canon(&mut canon);
            let tail = tail.map(|t| {
                let t: TokenStream = crate::grammar::transparent(t.into_iter().collect()).into_iter().collect();
                let at = t
                    .clone()
                    .into_iter()
                    .next()
                    .map_or(0, |t| crate::grammar::off(&t));
                format!("{at}:{}", flat_ts(&t))
            });
            if v.render().is_some() {
                drop(sim);
                render = Some(render_op(op, f, &*v, depth));
            } else {
                drop(sim);
            }
            drop(v);
            let _s = Sim::new();
            Res::Ok { canon, tail }
        }
    };
    let _sim = Sim::new();
    let steps = sched::op_end(prev);
    let fr = ctx::pop();
    Outcome {
        res,
        events,
        render,
        nested: fr.nested,
        fired: fr.fired,
        peeks: fr.peeks,
        steps,
    }
}
fn render_op(op: &Op, f: ParseFn, v: &dyn DynVal, depth: usize) -> RenderOut {
    let mut sink: TokenStream = {
        let _s = Sim::new();
        op.sink.parse().expect("sink must lex")
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        v.render().unwrap().to_tokens(&mut sink);
    }));
    let sim = Sim::new();
    let events = ctx::top(|f| {
        f.quiet = true;
        std::mem::take(&mut f.revents)
    })
    .unwrap();
    let panic = match r {
        Ok(()) => None,
        Err(p) => Some(panic_res(p, depth, true).0),
    };
    if op.once {
        return RenderOut {
            panic,
            sink: flat_list(&sink),
            events,
            again: None,
            text: String::new(),
            places: vec![],
            reparse: Res::Err { own: None, at: 0, msg: String::new() },
        };
    }
    let mut ts = TokenStream::new();
    drop(sim);
    let r = catch_unwind(AssertUnwindSafe(|| {
        v.render().unwrap().to_tokens(&mut ts);
    }));
    let sim = Sim::new();
    let again = match r {
        Ok(()) => Ok(flat_list(&ts)),
        Err(p) => Err(panic_res(p, depth, true).1),
    };
    let text = ts.to_string();
    let places = crate::grammar::places_ts(&ts);
    drop(sim);
    let r = catch_unwind(AssertUnwindSafe(|| parse_entry(Entry::Tail, f, ts)));
    let sim = Sim::new();
    let reparse = match r {
        Err(p) => {
            let (inv, msg) = panic_res(p, depth, false);
            Res::Panic { inv, msg }
        }
        Ok(Err(e)) => err_res(e, depth),
        Ok(Ok((v, tail))) => {
            let mut canon = String::new();
            v.canon(&mut canon);
            let mut ts = TokenStream::new();
            if let Some(r) = v.render() {
                r.to_tokens(&mut ts);
            }
            Res::Ok {
                canon: strip_offsets(&canon),
                tail: Some(format!("{} | {}", flat_ts(&ts), flat_ts(&tail.unwrap()))),
            }
        }
    };
    ctx::top(|f| {
        f.events.clear();
        f.revents.clear();
    });
    drop(sim);
    RenderOut {
        panic,
        sink: flat_list(&sink),
        events,
        again: Some(again),
        text,
        places,
        reparse,
    }
}
pub fn run(r: &Arc<Run>) -> (Vec<Vec<Outcome>>, Stats) {
    *CURRENT.lock().unwrap() = Some(r.clone());
    let n = r.tasks.len();
    sched::begin(n, &r.sched);
    let outs: Vec<Vec<Outcome>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                sched::thread(r.world as u64)
                    .spawn_scoped(s, move || {
                        static EMPTY: [u32; 0] = [];
                        let gaps: &[u32] = r.gaps.get(i).map_or(&EMPTY, |g| g);
                        sched::enter(i, gaps);
                        let outs: Vec<_> = r.tasks[i].iter().map(run_op).collect();
                        sched::leave(i);
                        outs
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("task")).collect()
    });
    let st = sched::end();
    *CURRENT.lock().unwrap() = None;
    (outs, st)
}
