//! Explicit description of one simulated run, and the observed outcome.
use crate::ir::Leaf;
use crate::json::J;
use crate::rng::Rng;
use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry {
    /// `syn::parse2::<T>`
    Whole,
    /// `T::parse(input)` followed by the rest of the stream
    Tail,
    /// `attr.parse_args::<T>()` on `#[a(..)]`
    Attr,
    /// inside a parenthesized group that is followed by other tokens
    Group,
}
pub const ENTRIES: &[Entry] = &[Entry::Whole, Entry::Tail, Entry::Attr, Entry::Group];
impl Entry {
    pub fn name(self) -> &'static str {
        match self {
            Entry::Whole => "whole",
            Entry::Tail => "tail",
            Entry::Attr => "attr",
            Entry::Group => "group",
        }
    }
    /// text before and after the arguments
    pub fn wrap(self) -> (&'static str, &'static str) {
        match self {
            Entry::Whole | Entry::Tail => ("", ""),
            Entry::Attr => ("#[a(", ")]"),
            Entry::Group => ("(", ") zz 9"),
        }
    }
    pub fn tail(self) -> bool {
        matches!(self, Entry::Tail | Entry::Group)
    }
}
/// behaviour of one field parser call
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    ErrBefore,
    ErrAfter(usize),
    ErrFull,
    PanicBefore,
    PanicAfter(usize),
    /// succeed after consuming this many tokens
    Weird(usize),
    /// look ahead on a fork and drop it, then behave normally
    ForkWaste(usize),
    /// run another operation inside the call, then behave normally
    Nest(Box<Op>),
}
impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::ErrBefore => "parser_error_before",
            Fault::ErrAfter(_) => "parser_error_midway",
            Fault::ErrFull => "parser_error_after",
            Fault::PanicBefore => "parser_panic_before",
            Fault::PanicAfter(_) => "parser_panic_midway",
            Fault::Weird(0) => "zero_read",
            Fault::Weird(_) => "short_or_over_read",
            Fault::ForkWaste(_) => "abandoned_fork",
            Fault::Nest(_) => "nested_op_in_parser",
        }
    }
}
/// behaviour of one field renderer call
#[derive(Clone, Debug, PartialEq)]
pub enum RFault {
    PanicBefore,
    PanicAfter(usize),
    Nest(Box<Op>),
}
impl RFault {
    pub fn kind(&self) -> &'static str {
        match self {
            RFault::PanicBefore => "renderer_panic_before",
            RFault::PanicAfter(_) => "renderer_panic_midway",
            RFault::Nest(_) => "nested_op_in_renderer",
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub spec: usize,
    pub entry: Entry,
    pub src: String,
    /// by invocation number of a field parser within the operation
    pub faults: Vec<(usize, Fault)>,
    /// field parsers called at these offsets always fail
    pub perm: Vec<usize>,
    /// from this invocation on, field parsers succeed without reading
    pub stuck: Option<usize>,
    /// peeks at these offsets answer the opposite
    pub flips: Vec<usize>,
    pub rfaults: Vec<(usize, RFault)>,
    /// what the sink holds before rendering
    pub sink: String,
    /// leave it at the first rendering
    pub once: bool,
    /// tokens without a place of their own, as macros make them: 0 none, 1 all,
    /// above some
    pub spans: u8,
    /// seed of the groups without delimiters around some of the tokens
    pub nones: u32,
    /// channel faults that were applied to the argument stream
    pub chan: Vec<String>,
}
impl Op {
    pub fn text(&self) -> String {
        let (a, b) = self.entry.wrap();
        format!("{a}{}{b}", self.src)
    }
    /// what is parsed
    pub fn stream(&self) -> TokenStream {
        let ts = self.tokens();
        if self.nones == 0 {
            return ts;
        }
        fn wrap(ts: TokenStream, skip: usize, r: &mut Rng) -> TokenStream {
            let v: Vec<TokenTree> = ts
                .into_iter()
                .map(|t| match t {
                    TokenTree::Group(g) => {
                        let mut new = Group::new(g.delimiter(), wrap(g.stream(), skip.saturating_sub(1), r));
                        new.set_span(g.span());
                        new.into()
                    }
                    t => t,
                })
                .collect();
            if skip > 0 {
                return v.into_iter().collect();
            }
            let mut o: Vec<TokenTree> = Vec::new();
            let mut it = v.into_iter().peekable();
            while let Some(t) = it.next() {
                // a lifetime stays in one piece
                let quote = |t: &TokenTree| matches!(t, TokenTree::Punct(p) if p.as_char() == '\'');
                if quote(&t) {
                    o.push(t);
                    o.extend(it.next());
                    continue;
                }
                if !r.pct(30) {
                    o.push(t);
                    continue;
                }
                let mut inner = vec![t];
                while r.pct(45) && it.peek().is_some_and(|t| !quote(t)) {
                    inner.extend(it.next());
                }
                let mut g = Group::new(Delimiter::None, inner.into_iter().collect());
                if r.pct(25) {
                    g = Group::new(Delimiter::None, TokenTree::Group(g).into());
                }
                o.push(g.into());
            }
            o.into_iter().collect()
        }
        // not what is around the arguments
        let skip = match self.entry {
            Entry::Whole | Entry::Tail => 0,
            Entry::Group => 1,
            Entry::Attr => 2,
        };
        wrap(ts, skip, &mut Rng::new(self.nones as u64))
    }
    /// the same without groups that have no delimiters
    pub fn tokens(&self) -> TokenStream {
        let ts: TokenStream = self.text().parse().expect("op text must lex");
        if self.spans == 0 {
            return ts;
        }
        fn strip(ts: TokenStream, k: usize, n: &mut usize) -> TokenStream {
            ts.into_iter()
                .map(|mut t| {
                    *n += 1;
                    let here = *n;
                    if let TokenTree::Group(g) = &t {
                        let mut new = Group::new(g.delimiter(), strip(g.stream(), k, n));
                        new.set_span(g.span());
                        t = TokenTree::Group(new);
                    }
                    if k == 1 || (here * here + here / 2) % k == 0 {
                        t.set_span(Span::call_site());
                    }
                    t
                })
                .collect()
        }
        strip(ts, self.spans as usize, &mut 0)
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Run {
    /// operations per task (thread)
    pub tasks: Vec<Vec<Op>>,
    /// decisions at callback yields
    pub sched: Vec<u8>,
    /// per task: allocation counts between forced yields
    pub gaps: Vec<Vec<u32>>,
    /// seed of the surroundings: hash keys, environment, clocks, thread names
    pub world: u32,
}

// ---------------------------------------------------------------- outcome
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok {
        canon: String,
        tail: Option<String>,
    },
    Err {
        /// invocation number if the error is exactly one field parser's own
        own: Option<usize>,
        at: usize,
        msg: String,
    },
    Panic {
        /// invocation number if it is an injected panic
        inv: Option<usize>,
        msg: String,
    },
}
#[derive(Clone, Debug, PartialEq)]
pub struct RenderOut {
    /// None: finished; Some(Some(inv)): injected panic; Some(None): other panic
    pub panic: Option<Option<usize>>,
    pub sink: Vec<String>,
    pub events: Vec<(Leaf, usize)>,
    /// a second, undisturbed rendering
    pub again: Option<Result<Vec<String>, String>>,
    /// the same as source text
    pub text: String,
    /// where its tokens are
    pub places: Vec<usize>,
    /// parse of the second rendering: canonical value without offsets
    pub reparse: Res,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub res: Res,
    pub events: Vec<(Leaf, usize)>,
    pub render: Option<RenderOut>,
    /// operations run inside callbacks of this one: callback number, outcome
    pub nested: Vec<(bool, usize, Outcome)>,
    pub fired: Vec<&'static str>,
    pub peeks: usize,
    /// heap allocations
    pub steps: u64,
}

// ---------------------------------------------------------------- json
impl Op {
    pub fn to_json(&self) -> J {
        J::obj(vec![
            ("spec", J::n(self.spec)),
            ("entry", J::s(self.entry.name())),
            ("src", J::s(&self.src)),
            (
                "faults",
                J::Arr(
                    self.faults
                        .iter()
                        .map(|(i, f)| {
                            let mut v = vec![("inv", J::n(*i))];
                            match f {
                                Fault::ErrBefore => v.push(("kind", J::s("err_before"))),
                                Fault::ErrAfter(n) => {
                                    v.push(("kind", J::s("err_after")));
                                    v.push(("n", J::n(*n)))
                                }
                                Fault::ErrFull => v.push(("kind", J::s("err_full"))),
                                Fault::PanicBefore => v.push(("kind", J::s("panic_before"))),
                                Fault::PanicAfter(n) => {
                                    v.push(("kind", J::s("panic_after")));
                                    v.push(("n", J::n(*n)))
                                }
                                Fault::Weird(n) => {
                                    v.push(("kind", J::s("weird")));
                                    v.push(("n", J::n(*n)))
                                }
                                Fault::ForkWaste(n) => {
                                    v.push(("kind", J::s("fork_waste")));
                                    v.push(("n", J::n(*n)))
                                }
                                Fault::Nest(o) => {
                                    v.push(("kind", J::s("nest")));
                                    v.push(("op", o.to_json()))
                                }
                            }
                            J::obj(v)
                        })
                        .collect(),
                ),
            ),
            ("perm", J::Arr(self.perm.iter().map(|x| J::n(*x)).collect())),
            ("stuck", J::n(self.stuck.map_or(0, |x| x + 1))),
            ("flips", J::Arr(self.flips.iter().map(|x| J::n(*x)).collect())),
            (
                "rfaults",
                J::Arr(
                    self.rfaults
                        .iter()
                        .map(|(i, f)| {
                            let mut v = vec![("inv", J::n(*i))];
                            match f {
                                RFault::PanicBefore => v.push(("kind", J::s("panic_before"))),
                                RFault::PanicAfter(n) => {
                                    v.push(("kind", J::s("panic_after")));
                                    v.push(("n", J::n(*n)))
                                }
                                RFault::Nest(o) => {
                                    v.push(("kind", J::s("nest")));
                                    v.push(("op", o.to_json()))
                                }
                            }
                            J::obj(v)
                        })
                        .collect(),
                ),
            ),
            ("sink", J::s(&self.sink)),
            ("once", J::n(self.once as usize)),
            ("spans", J::n(self.spans as usize)),
            ("nones", J::n(self.nones as usize)),
            (
                "chan",
                J::Arr(self.chan.iter().map(|x| J::s(x.as_str())).collect()),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Option<Op> {
        let mut faults = Vec::new();
        for f in j.arr("faults") {
            let n = f.num("n");
            let k = match f.str("kind").as_str() {
                "err_before" => Fault::ErrBefore,
                "err_after" => Fault::ErrAfter(n),
                "err_full" => Fault::ErrFull,
                "panic_before" => Fault::PanicBefore,
                "panic_after" => Fault::PanicAfter(n),
                "weird" => Fault::Weird(n),
                "fork_waste" => Fault::ForkWaste(n),
                "nest" => Fault::Nest(Box::new(Op::from_json(f.get("op")?)?)),
                _ => return None,
            };
            faults.push((f.num("inv"), k));
        }
        let mut rfaults = Vec::new();
        for f in j.arr("rfaults") {
            let k = match f.str("kind").as_str() {
                "panic_before" => RFault::PanicBefore,
                "panic_after" => RFault::PanicAfter(f.num("n")),
                "nest" => RFault::Nest(Box::new(Op::from_json(f.get("op")?)?)),
                _ => return None,
            };
            rfaults.push((f.num("inv"), k));
        }
        let e = j.str("entry");
        Some(Op {
            spec: j.num("spec"),
            entry: *ENTRIES.iter().find(|x| x.name() == e)?,
            src: j.str("src"),
            faults,
            perm: j.arr("perm").iter().map(|x| x.as_num()).collect(),
            stuck: j.num("stuck").checked_sub(1),
            flips: j.arr("flips").iter().map(|x| x.as_num()).collect(),
            rfaults,
            sink: j.str("sink"),
            once: j.num("once") != 0,
            spans: j.num("spans") as u8,
            nones: j.num("nones") as u32,
            chan: j.arr("chan").iter().map(|x| x.as_str().to_string()).collect(),
        })
    }
}
impl Run {
    pub fn to_json(&self) -> J {
        J::obj(vec![
            (
                "tasks",
                J::Arr(
                    self.tasks
                        .iter()
                        .map(|t| J::Arr(t.iter().map(|o| o.to_json()).collect()))
                        .collect(),
                ),
            ),
            ("world", J::n(self.world as usize)),
            (
                "sched",
                J::Arr(self.sched.iter().map(|x| J::n(*x as usize)).collect()),
            ),
            (
                "gaps",
                J::Arr(
                    self.gaps
                        .iter()
                        .map(|g| J::Arr(g.iter().map(|x| J::n(*x as usize)).collect()))
                        .collect(),
                ),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Option<Run> {
        let mut tasks = Vec::new();
        for t in j.arr("tasks") {
            tasks.push(t.as_arr().iter().map(Op::from_json).collect::<Option<Vec<_>>>()?);
        }
        Some(Run {
            tasks,
            world: j.num("world") as u32,
            sched: j.arr("sched").iter().map(|x| x.as_num() as u8).collect(),
            gaps: j
                .arr("gaps")
                .iter()
                .map(|g| g.as_arr().iter().map(|x| x.as_num() as u32).collect())
                .collect(),
        })
    }
}
