//! Per-operation context of the simulated environment: which fault the next
//! callback suffers, and the history of callbacks.
use crate::grammar::{self, flat};
use crate::ir::Leaf;
use crate::op::{Fault, Op, Outcome, RFault};
use crate::sched::{self, Sim};
use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
use std::cell::RefCell;
use syn::buffer::Cursor;
use syn::parse::ParseStream;
use syn::parse::discouraged::AnyDelimiter;

pub struct Frame {
    pub op: *const Op,
    /// faults are switched off (second rendering, second parse)
    pub quiet: bool,
    pub inv: usize,
    pub rinv: usize,
    pub events: Vec<(Leaf, usize)>,
    pub revents: Vec<(Leaf, usize)>,
    pub nested: Vec<(bool, usize, Outcome)>,
    pub fired: Vec<&'static str>,
    pub peeks: usize,
}
thread_local! {
    static STACK: RefCell<Vec<Frame>> = const { RefCell::new(Vec::new()) };
}
pub struct InjPanic {
    pub depth: usize,
    pub inv: usize,
    pub render: bool,
}
pub const MAX_EVENTS: usize = 100_000;
/// the simulated parser's value
#[derive(Clone, Debug)]
pub struct Val {
    pub kind: Leaf,
    pub off: usize,
    pub toks: Vec<TokenTree>,
}
impl Val {
    pub fn text(&self) -> String {
        flat(&self.toks)
    }
}
pub fn push(op: &Op) -> usize {
    let _s = Sim::new();
    STACK.with(|s| {
        let mut s = s.borrow_mut();
        s.push(Frame {
            op,
            quiet: false,
            inv: 0,
            rinv: 0,
            events: Vec::new(),
            revents: Vec::new(),
            nested: Vec::new(),
            fired: Vec::new(),
            peeks: 0,
        });
        s.len()
    })
}
pub fn pop() -> Frame {
    STACK.with(|s| s.borrow_mut().pop().unwrap())
}
pub fn depth() -> usize {
    STACK.with(|s| s.borrow().len())
}
/// the frame of the operation being run on this thread
pub fn top<R>(f: impl FnOnce(&mut Frame) -> R) -> Option<R> {
    STACK.with(|s| s.borrow_mut().last_mut().map(f))
}
fn op_of(f: &Frame) -> &'static Op {
    unsafe { &*f.op }
}
fn cursor_off(c: Cursor) -> usize {
    look(c, 1).first().map_or(0, grammar::off)
}
fn look(mut c: Cursor, max: usize) -> Vec<TokenTree> {
    let mut v = Vec::new();
    while v.len() < max {
        match c.token_tree() {
            Some((t, n)) => {
                v.extend(grammar::transparent(vec![t]));
                c = n;
            }
            None => break,
        }
    }
    v.truncate(max);
    v
}
/// the next token; one of several in a group without delimiters is one token
fn one<'c>(c: Cursor<'c>) -> Option<(TokenTree, Cursor<'c>)> {
    if c.group(Delimiter::None).is_none() {
        return c.token_tree();
    }
    let group = |d: Delimiter| {
        c.group(d).map(|(inner, span, after)| {
            let mut g = Group::new(d, inner.token_stream());
            g.set_span(span.join());
            (TokenTree::from(g), after)
        })
    };
    c.ident()
        .map(|(t, n)| (t.into(), n))
        .or_else(|| c.literal().map(|(t, n)| (t.into(), n)))
        .or_else(|| c.punct().map(|(t, n)| (t.into(), n)))
        .or_else(|| [Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace].into_iter().find_map(group))
}
fn take(input: ParseStream, n: usize) -> Vec<TokenTree> {
    let mut v = Vec::new();
    while v.len() < n && !input.is_empty() {
        match input.step(|c| one(*c).ok_or_else(|| c.error("no token"))) {
            Ok(t) => v.extend(grammar::transparent(vec![t])),
            Err(_) => break,
        }
    }
    v
}
/// Errors of field parsers look like anything, syn's own and derived code's
/// messages included.
const LOOKS: &[&str] = &[
    "",
    "",
    "",
    "expected identifier, found ",
    "unexpected end of input, expected ",
    "unexpected token ",
    "expected `,` ",
    "parse failed.",
    "cannot find parameter `x` in this scope ",
    "missing argument `a = ...` ",
    "too many unnamed parameter ",
    "expected flag `a`, found ",
    "unexpected end of input",
    "\n",
    "lex error ",
];
/// The parser's own error. Every other one has two messages, the second at a
/// place of its own, so that passing on a part of an error shows; every fourth
/// is about the last token the parser looked at, or about no token at all.
fn own_error(at: Span, kind: Leaf, depth: usize, inv: usize, natural: bool, look: &[TokenTree]) -> syn::Error {
    let h = inv * 7 + look.len() * 5 + kind.name().len();
    let at = match h % 8 {
        3 => look.last().map_or(at, |t| t.span()),
        6 => Span::call_site(),
        _ => at,
    };
    let m = format!(
        "{}{}{}:{depth}:{inv}:{}:{h}",
        LOOKS[h % LOOKS.len()],
        if natural { "NAT" } else { "INJ" },
        kind.name(),
        at.byte_range().start,
    );
    if !(inv + look.len()).is_multiple_of(2) {
        return syn::Error::new(at, m);
    }
    let mut e = syn::Error::new(at, format!("{m}+"));
    let s = look.last().map_or(Span::call_site(), |t| t.span());
    e.combine(syn::Error::new(s, format!("AND:{depth}:{inv}:{}", s.byte_range().start)));
    e
}
/// which of the operation's callbacks made this error, if it is intact
pub fn own_inv(e: &syn::Error, depth: usize) -> Option<usize> {
    let parts: Vec<_> = e.clone().into_iter().collect();
    let msg = parts[0].to_string();
    let k = msg.rfind("INJ").or_else(|| msg.rfind("NAT"))?;
    let p: Vec<&str> = msg[k..].split(':').collect();
    let &[_, d, inv, at, h] = &p[..] else { return None };
    if d.parse() != Ok(depth) || at.parse() != Ok(parts[0].span().byte_range().start) {
        return None;
    }
    let one: usize = h.trim_end_matches('+').parse().ok()?;
    if msg[..k] != *LOOKS[one % LOOKS.len()] {
        return None;
    }
    match h.strip_suffix('+') {
        None if parts.len() == 1 => inv.parse().ok(),
        Some(_) if parts.len() == 2 => {
            let at = parts[1].span().byte_range().start;
            (parts[1].to_string() == format!("AND:{depth}:{inv}:{at}")).then(|| inv.parse().ok())?
        }
        _ => None,
    }
}
pub fn parse(kind: Leaf, input: ParseStream) -> syn::Result<Val> {
    let sim = Sim::new();
    let off = cursor_off(input.cursor());
    let depth = depth();
    let st = top(|f| {
        f.events.push((kind, off));
        let inv = f.inv;
        f.inv += 1;
        if f.events.len() > MAX_EVENTS {
            return Err(());
        }
        let op = op_of(f);
        let fault = if f.quiet {
            None
        } else if op.perm.contains(&off) && off != 0 {
            f.fired.push("parser_error_permanent");
            Some(Fault::ErrBefore)
        } else {
            let x = op.faults.iter().find(|x| x.0 == inv).map(|x| x.1.clone());
            if let Some(x) = &x {
                f.fired.push(x.kind());
            }
            x
        };
        // detours do not keep a parser from being stuck
        let stuck = !f.quiet
            && matches!(fault, None | Some(Fault::ForkWaste(_) | Fault::Nest(_)))
            && op.stuck.is_some_and(|k| inv >= k);
        if stuck {
            f.fired.push("parser_stuck");
        }
        Ok((inv, fault, stuck))
    });
    let (inv, fault, stuck) = match st {
        None => (0, None, false),
        Some(Ok(x)) => x,
        Some(Err(())) => {
            let f = *sched::ON_BUDGET.lock().unwrap_or_else(|e| e.into_inner());
            if let Some(f) = f {
                f();
            }
            std::process::exit(42);
        }
    };
    sched::yield_point();
    let at = || {
        if input.is_empty() {
            Span::call_site()
        } else {
            input.span()
        }
    };
    let r = match fault {
        Some(Fault::ErrBefore) => Err(own_error(at(), kind, depth, inv, false, &look(input.cursor(), 3))),
        Some(Fault::ErrAfter(n)) => {
            let e = own_error(at(), kind, depth, inv, false, &look(input.cursor(), 3));
            take(input, n);
            Err(e)
        }
        Some(Fault::ErrFull) => {
            let e = own_error(at(), kind, depth, inv, false, &look(input.cursor(), 3));
            let w = look(input.cursor(), grammar::window(kind));
            if let Some(n) = grammar::normal(kind, &w) {
                take(input, n);
            }
            Err(e)
        }
        Some(Fault::PanicBefore) => {
            drop(sim);
            std::panic::panic_any(InjPanic {
                depth,
                inv,
                render: false,
            })
        }
        Some(Fault::PanicAfter(n)) => {
            take(input, n);
            drop(sim);
            std::panic::panic_any(InjPanic {
                depth,
                inv,
                render: false,
            })
        }
        Some(Fault::Weird(n)) => Ok(take(input, n)),
        f => {
            match &f {
                Some(Fault::ForkWaste(n)) => {
                    let fork = input.fork();
                    take(&fork, *n);
                    if let Ok((_, _, g)) = fork.fork().parse_any_delimiter() {
                        drop(g);
                    }
                    drop(fork);
                }
                Some(Fault::Nest(o)) => {
                    let out = sched::outside_sim(|| crate::exec::run_op(o));
                    top(|f| f.nested.push((false, inv, out)));
                }
                _ => {}
            }
            let w = look(input.cursor(), grammar::window(kind));
            match grammar::normal(kind, &w) {
                _ if stuck => Ok(take(input, 0)),
                Some(n) => Ok(take(input, n)),
                None => Err(own_error(at(), kind, depth, inv, true, &look(input.cursor(), 3))),
            }
        }
    };
    sched::yield_point();
    r.map(|toks| Val { kind, off, toks })
}
pub fn peek(kind: Leaf, c: Cursor) -> bool {
    let sim = Sim::new();
    let off = cursor_off(c);
    let flip = top(|f| {
        f.peeks += 1;
        let x = !f.quiet && off != 0 && op_of(f).flips.contains(&off);
        if x {
            f.fired.push("peek_answer_flipped");
        }
        x
    })
    .unwrap_or(false);
    sched::yield_point();
    let w = look(c, 1);
    let r = !w.is_empty() && (grammar::normal(kind, &w).is_some() != flip);
    drop(sim);
    r
}
pub fn render(v: &Val, ts: &mut TokenStream) {
    let sim = Sim::new();
    let depth = depth();
    let (inv, fault) = top(|f| {
        f.revents.push((v.kind, v.off));
        let inv = f.rinv;
        f.rinv += 1;
        if f.quiet {
            return (inv, None);
        }
        let op = op_of(f);
        let x = op.rfaults.iter().find(|x| x.0 == inv).map(|x| x.1.clone());
        if let Some(x) = &x {
            f.fired.push(x.kind());
        }
        (inv, x)
    })
    .unwrap_or((0, None));
    sched::yield_point();
    match fault {
        Some(RFault::PanicBefore) => {
            drop(sim);
            std::panic::panic_any(InjPanic {
                depth,
                inv,
                render: true,
            })
        }
        Some(RFault::PanicAfter(n)) => {
            ts.extend(v.toks.iter().take(n).cloned());
            drop(sim);
            std::panic::panic_any(InjPanic {
                depth,
                inv,
                render: true,
            })
        }
        Some(RFault::Nest(o)) => {
            let out = sched::outside_sim(|| crate::exec::run_op(&o));
            top(|f| f.nested.push((true, inv, out)));
        }
        None => {}
    }
    ts.extend(v.toks.iter().cloned());
    sched::yield_point();
}
