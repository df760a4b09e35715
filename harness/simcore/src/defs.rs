//! Compiler world: definitions, sessions of macro expansions, their oracle.
use crate::emit;
use crate::genspec;
use crate::ir::*;
use crate::json::J;
use crate::rng::Rng;
use crate::sched::{self, Sim};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, OnceLock};
use syn::parse::Parser;
use syn::{Data, DeriveInput, Field, Fields, parse_quote};

/// derive entry points: StructMeta, Parse, ToTokens
pub static HOST: OnceLock<[fn(TokenStream) -> TokenStream; 3]> = OnceLock::new();
pub const MACROS: [&str; 3] = ["StructMeta", "Parse", "ToTokens"];

#[derive(Clone, Debug, PartialEq)]
pub struct Def {
    pub mac: usize,
    /// "valid", "dump" or the rule that is broken
    pub class: String,
    pub src: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Session {
    pub hash: u64,
    pub defs: Vec<Def>,
    /// per compiler thread: the definitions to expand, in order
    pub threads: Vec<Vec<usize>>,
    pub sched: Vec<u8>,
    pub gaps: Vec<Vec<u32>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Impl(String),
    Reject(String),
    Panic(String),
}
impl Exp {
    pub fn class(&self) -> &'static str {
        match self {
            Exp::Impl(_) => "expanded",
            Exp::Reject(_) => "compile error",
            Exp::Panic(_) => "panic",
        }
    }
    pub fn text(&self) -> &str {
        match self {
            Exp::Impl(s) | Exp::Reject(s) | Exp::Panic(s) => s,
        }
    }
    pub fn to_json(&self) -> J {
        J::Arr(vec![
            J::n(match self {
                Exp::Impl(_) => 0,
                Exp::Reject(_) => 1,
                Exp::Panic(_) => 2,
            }),
            J::s(self.text()),
        ])
    }
    pub fn from_json(j: &J) -> Exp {
        let a = j.as_arr();
        let t = a[1].as_str().to_string();
        match a[0].as_num() {
            0 => Exp::Impl(t),
            1 => Exp::Reject(t),
            _ => Exp::Panic(t),
        }
    }
}
impl Session {
    pub fn to_json(&self) -> J {
        J::obj(vec![
            ("hash", J::s(format!("{:016x}", self.hash))),
            (
                "defs",
                J::Arr(
                    self.defs
                        .iter()
                        .map(|d| {
                            J::obj(vec![
                                ("derive", J::s(MACROS[d.mac])),
                                ("class", J::s(&d.class)),
                                ("src", J::s(&d.src)),
                            ])
                        })
                        .collect(),
                ),
            ),
            (
                "threads",
                J::Arr(
                    self.threads
                        .iter()
                        .map(|t| J::Arr(t.iter().map(|x| J::n(*x)).collect()))
                        .collect(),
                ),
            ),
            ("sched", J::Arr(self.sched.iter().map(|x| J::n(*x as usize)).collect())),
            (
                "gaps",
                J::Arr(
                    self.gaps
                        .iter()
                        .map(|g| J::Arr(g.iter().map(|x| J::n(*x as usize)).collect()))
                        .collect(),
                ),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Option<Session> {
        let mut s = Session {
            hash: u64::from_str_radix(&j.str("hash"), 16).ok()?,
            ..Session::default()
        };
        for d in j.arr("defs") {
            let m = d.str("derive");
            s.defs.push(Def {
                mac: MACROS.iter().position(|x| *x == m)?,
                class: d.str("class"),
                src: d.str("src"),
            });
        }
        for t in j.arr("threads") {
            s.threads.push(t.as_arr().iter().map(|x| x.as_num()).collect());
        }
        s.sched = j.arr("sched").iter().map(|x| x.as_num() as u8).collect();
        s.gaps = j
            .arr("gaps")
            .iter()
            .map(|g| g.as_arr().iter().map(|x| x.as_num() as u32).collect())
            .collect();
        Some(s)
    }
    /// what this definition's expansion alone in a fresh compiler would need
    pub fn alone(&self, d: usize, hash: u64) -> Session {
        Session {
            hash,
            defs: vec![self.defs[d].clone()],
            threads: vec![vec![0]],
            ..Session::default()
        }
    }
}
fn rejects(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "compile_error",
        TokenTree::Group(g) => rejects(&g.stream()),
        _ => false,
    })
}
fn expand(d: &Def) -> Exp {
    let sim = Sim::new();
    let ts: TokenStream = d.src.parse().expect("definition must lex");
    let f = HOST.get().unwrap()[d.mac];
    let prev = sched::op_begin();
    drop(sim);
    sched::yield_point();
    let r = catch_unwind(AssertUnwindSafe(|| f(ts)));
    sched::op_end(prev);
    let _sim = Sim::new();
    match r {
        Ok(ts) => {
            let s = ts.to_string();
            if rejects(&ts) { Exp::Reject(s) } else { Exp::Impl(s) }
        }
        Err(p) => Exp::Panic(if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }),
    }
}
pub fn run(s: &Arc<Session>) -> (Vec<Vec<Exp>>, sched::Stats) {
    let n = s.threads.len();
    sched::begin(n, &s.sched);
    let outs = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                sched::thread(s.hash).spawn_scoped(sc, move || {
                        static EMPTY: [u32; 0] = [];
                        let gaps: &[u32] = s.gaps.get(i).map_or(&EMPTY, |g| g);
                        sched::enter(i, gaps);
                        let o: Vec<_> = s.threads[i].iter().map(|d| expand(&s.defs[*d])).collect();
                        sched::leave(i);
                        o
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("task")).collect()
    });
    (outs, sched::end())
}
/// (property, aspect, detail)
pub fn judge(d: &Def, got: &Exp, alone: Option<&Exp>) -> Vec<(&'static str, &'static str, String)> {
    let mut v = Vec::new();
    match (d.class.as_str(), got) {
        ("valid", Exp::Impl(code)) => {
            if let Some(e) = carries(&d.src, code) {
                v.push(("C16", "generics", e));
            }
        }
        ("dump", _) => {}
        ("valid", g) => v.push((
            "C11",
            "rejected",
            format!("valid definition: {}: {}", g.class(), g.text()),
        )),
        (_, Exp::Reject(_)) => {}
        (c, Exp::Impl(_)) => v.push(("C11", "accepted", format!("accepted although it breaks the rule `{c}`"))),
        (c, Exp::Panic(m)) => v.push((
            "C11",
            "panic",
            format!("panicked instead of reporting the broken rule `{c}`: {m}"),
        )),
    }
    if let Some(a) = alone
        && a != got
    {
        if a.class() != got.class() {
            v.push((
                "C11",
                "history",
                format!("alone: {} {}; in this session: {} {}", a.class(), a.text(), got.class(), got.text()),
            ));
        }
        v.push(("C10", "history", diff(a.text(), got.text())));
    }
    v
}
/// What an `impl` says of the definition's generics: the parameters in order, and every
/// bound, wherever it is written.
fn says(g: &syn::Generics) -> (Vec<String>, std::collections::BTreeSet<String>) {
    let mut params = Vec::new();
    let mut bounds = std::collections::BTreeSet::new();
    for p in &g.params {
        match p {
            syn::GenericParam::Lifetime(l) => {
                params.push(l.lifetime.to_string());
                for b in &l.bounds {
                    bounds.insert(format!("{} : {b}", l.lifetime));
                }
            }
            syn::GenericParam::Type(t) => {
                params.push(t.ident.to_string());
                for b in &t.bounds {
                    bounds.insert(format!("{} : {}", t.ident, b.to_token_stream()));
                }
            }
            syn::GenericParam::Const(c) => params.push(format!("const {} : {}", c.ident, c.ty.to_token_stream())),
        }
    }
    for p in g.where_clause.iter().flat_map(|w| &w.predicates) {
        match p {
            syn::WherePredicate::Lifetime(l) => {
                for b in &l.bounds {
                    bounds.insert(format!("{} : {b}", l.lifetime));
                }
            }
            syn::WherePredicate::Type(t) => {
                let of = format!("{} {}", t.lifetimes.to_token_stream(), t.bounded_ty.to_token_stream());
                for b in &t.bounds {
                    bounds.insert(format!("{} : {}", of.trim(), b.to_token_stream()));
                }
            }
            p => {
                bounds.insert(p.to_token_stream().to_string());
            }
        }
    }
    (params, bounds)
}
/// what the generated implementations lost or changed of the definition's generics
fn carries(src: &str, code: &str) -> Option<String> {
    let d = parse_def(src);
    let want = says(&d.generics);
    let file: syn::File = match syn::parse_str(code) {
        Ok(f) => f,
        Err(e) => return Some(format!("the expansion is not Rust: {e}: {code}")),
    };
    let mut here = 0;
    for i in file.items.iter().flat_map(flat) {
        let syn::Type::Path(t) = &*i.self_ty else { continue };
        let Some(last) = t.path.segments.last() else { continue };
        if last.ident != d.ident || i.trait_.is_none() {
            continue;
        }
        here += 1;
        let got = says(&i.generics);
        if got.0 != want.0 {
            return Some(format!("parameters {:?} became {:?}", want.0, got.0));
        }
        if got.1 != want.1 {
            let lost: Vec<_> = want.1.difference(&got.1).collect();
            let more: Vec<_> = got.1.difference(&want.1).collect();
            return Some(format!("bounds lost {lost:?}, added {more:?}"));
        }
        let args = match &last.arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().map(|a| a.to_token_stream().to_string().replace("{ ", "").replace(" }", "")).collect(),
            _ => Vec::new(),
        };
        let own: Vec<String> = want.0.iter().map(|p| p.strip_prefix("const ").unwrap_or(p).split(" : ").next().unwrap().to_string()).collect();
        if args != own {
            return Some(format!("implemented for {} with {args:?} instead of {own:?}", d.ident));
        }
    }
    (here == 0).then(|| format!("no implementation for `{}`: {code}", d.ident))
}
/// the implementations in an item, also those within `const _: () = {{ .. }};`
fn flat(i: &syn::Item) -> Vec<&syn::ItemImpl> {
    match i {
        syn::Item::Impl(i) => vec![i],
        syn::Item::Mod(m) => m.content.iter().flat_map(|c| &c.1).flat_map(flat).collect(),
        syn::Item::Const(c) => match &*c.expr {
            syn::Expr::Block(b) => b
                .block
                .stmts
                .iter()
                .flat_map(|s| match s {
                    syn::Stmt::Item(i) => flat(i),
                    _ => vec![],
                })
                .collect(),
            _ => vec![],
        },
        _ => vec![],
    }
}
/// generics and where clauses of every kind
fn generics(r: &mut Rng, d: &mut DeriveInput) {
    let mut ps: Vec<String> = Vec::new();
    let mut lt = ["'a", "'b", "'r#struct", "'long_lifetime", "'c"];
    r.shuffle(&mut lt);
    let n = r.below(4);
    for k in 0..n {
        let b = match r.below(4) {
            0 if k > 0 => format!(": {}", lt[k - 1]),
            1 => ": 'static".into(),
            2 => ":".into(),
            _ => String::new(),
        };
        ps.push(format!("{}{b}", lt[k]));
    }
    let mut names = ["T", "U", "r#type", "Item2", "E"];
    r.shuffle(&mut names);
    let m = r.below(5);
    let mut default = false;
    for k in 0..m {
        if r.pct(25) {
            default |= r.pct(30);
            let ty = *r.pick(&["usize", "bool", "char", "u8"]);
            let v = match ty {
                "bool" => "true",
                "char" => "'x'",
                _ => "{ 1 + 2 }",
            };
            ps.push(format!("const {}: {ty}{}", ["N", "M", "r#fn", "K"][k], if default { format!(" = {v}") } else { String::new() }));
            continue;
        }
        let b = *r.pick(&[
            "",
            ":",
            ": Clone",
            ": ?Sized",
            ": 'static + Copy",
            ": std::ops::Deref<Target = u8> + Send",
            ": Fn(u8, &str) -> bool",
            ": for<'x> Fn(&'x u8) -> &'x u8",
            ": Iterator<Item: Clone>",
            ": syn::parse::Parse + quote::ToTokens",
        ]);
        default |= r.pct(20);
        let v = if default { *r.pick(&[" = u8", " = Vec<(u8, [u8; 3])>", " = fn(u8) -> u8"]) } else { "" };
        ps.push(format!("{}{b}{v}", names[k]));
    }
    if ps.is_empty() && r.pct(60) {
        return;
    }
    let mut src = ps.join(", ");
    if r.pct(20) && !src.is_empty() {
        src.push(',');
    }
    d.generics = syn::parse_str(&format!("<{src}>")).unwrap_or_else(|e| panic!("{e}: <{src}>"));
    let mut w: Vec<String> = Vec::new();
    for p in &d.generics.params {
        if let syn::GenericParam::Type(t) = p {
            let n = &t.ident;
            // several for one type, apart from each other
            for _ in 0..r.weighted(&[50, 20, 15, 15]) {
            w.push(match r.below(7) {
                5 => format!("{n}: Copy"),
                6 => format!("{n}: 'static"),
                0 => format!("{n}: Default + PartialEq<u8>"),
                1 => format!("Vec<{n}>: Clone"),
                2 => format!("for<'x> &'x {n}: IntoIterator<Item = u8>"),
                3 => format!("{n}:"),
                _ => format!("[{n}; 3]: Sized, <{n} as Iterator>::Item: Into<{n}>"),
            });
            }
        }
        if let syn::GenericParam::Lifetime(l) = p
            && r.pct(30)
        {
            w.push(format!("{}: 'static", l.lifetime));
        }
    }
    if r.pct(15) {
        w.push("String: Clone, u8: Copy".into());
    }
    if r.pct(40) {
        r.shuffle(&mut w);
    }
    if !w.is_empty() {
        let src = format!("where {}{}", w.join(", "), if r.pct(30) { "," } else { "" });
        d.generics.where_clause = Some(syn::parse_str(&src).unwrap_or_else(|e| panic!("{e}: {src}")));
    }
}
fn diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| -> String {
        let st = s.char_indices().map(|x| x.0).take_while(|i| *i <= n.saturating_sub(60)).last().unwrap_or(0);
        s[st..].chars().take(200).collect()
    };
    format!("expansion differs at byte {n}: alone `..{}`, in this session `..{}`", cut(a), cut(b))
}
// ------------------------------------------------------------ generation
fn parse_def(src: &str) -> DeriveInput {
    syn::parse_str(src).unwrap_or_else(|e| panic!("{e}: {src}"))
}
fn text(d: &DeriveInput) -> String {
    // what syn does not print
    d.to_token_stream().to_string().replace("where Nothing : Sized", "where ").replace("< Nothing >", "< >")
}
fn field(named: bool, src: &str) -> Field {
    let ts: TokenStream = src.parse().unwrap();
    if named {
        Field::parse_named.parse2(ts).unwrap()
    } else {
        Field::parse_unnamed.parse2(ts).unwrap()
    }
}
fn valid_spec(r: &mut Rng, sm: bool) -> Spec {
    for _ in 0..20 {
        let mut v = genspec::gen_pool(r.next(), 0, 12);
        v.retain(|s| s.is_sm() == sm);
        if let Some(s) = v.pop() {
            return s;
        }
    }
    unreachable!()
}
fn decorate(r: &mut Rng, d: &mut DeriveInput, mac: usize) {
    if r.pct(20) {
        d.attrs.push(parse_quote!(#[doc = "text"]));
    }
    if r.pct(10) {
        d.attrs.push(parse_quote!(#[non_exhaustive]));
    }
    if r.pct(10) {
        d.attrs.push(parse_quote!(#[derive(Debug)]));
    }
    if r.pct(10) {
        match mac {
            0 => d.attrs.push(parse_quote!(#[struct_meta()])),
            1 => d.attrs.push(parse_quote!(#[parse()])),
            _ => d.attrs.push(parse_quote!(#[to_tokens()])),
        }
    }
    if d.generics.params.is_empty() && r.pct(15) {
        d.generics = match r.below(4) {
            0 => parse_quote!(<'a>),
            1 => parse_quote!(<T: Clone + 'static>),
            2 => parse_quote!(<'a, T, const N: usize>),
            _ => parse_quote!(<T = u8>),
        };
        if r.pct(50) {
            d.generics.where_clause = Some(parse_quote!(where Vec<u8>: Clone, for<'b> &'b u8: Copy));
        }
    }
    if d.generics.where_clause.is_none() && r.pct(6) {
        d.generics.where_clause = Some(if r.pct(70) { parse_quote!(where Nothing: Sized) } else { parse_quote!(where u8: Copy) });
    }
    if d.generics.params.is_empty() && r.pct(4) {
        d.generics.params = parse_quote!(Nothing);
        d.generics.lt_token = Some(Default::default());
        d.generics.gt_token = Some(Default::default());
    }
    let hard = |r: &mut Rng, a: &mut syn::Attribute| {
        if let syn::Meta::List(l) = &mut a.meta
            && HELPERS.iter().any(|h| l.path.is_ident(h))
            && r.pct(3)
        {
            l.delimiter = if r.pct(50) {
                syn::MacroDelimiter::Brace(Default::default())
            } else {
                syn::MacroDelimiter::Bracket(Default::default())
            };
        }
    };
    for a in d.attrs.iter_mut() {
        hard(r, a);
    }
    for_fields(&mut d.data, |f| {
        for a in f.iter_mut().flat_map(|f| f.attrs.iter_mut()) {
            hard(r, a);
        }
    });
    for_fields(&mut d.data, |f| {
        for x in f.iter_mut() {
            if r.pct(6) {
                x.attrs.push(parse_quote!(#[doc = "field"]));
            }
            if r.pct(4) {
                x.attrs.push(parse_quote!(#[cfg(all())]));
            }
        }
    });
}
fn for_fields(d: &mut Data, mut f: impl FnMut(&mut Fields)) {
    match d {
        Data::Struct(s) => f(&mut s.fields),
        Data::Enum(e) => e.variants.iter_mut().for_each(|v| f(&mut v.fields)),
        Data::Union(_) => {}
    }
}
fn fields_mut<'a>(r: &mut Rng, d: &'a mut Data) -> &'a mut Fields {
    match d {
        Data::Struct(s) => &mut s.fields,
        Data::Enum(e) => {
            let n = e.variants.len();
            &mut e.variants.iter_mut().nth(r.below(n)).unwrap().fields
        }
        Data::Union(_) => unreachable!(),
    }
}
fn push_field(f: &mut Fields, x: Field, at: usize) {
    match f {
        Fields::Named(n) => n.named.insert(at, x),
        Fields::Unnamed(n) => n.unnamed.insert(at, x),
        Fields::Unit => unreachable!(),
    }
}
/// a StructMeta definition that breaks one rule
fn bad_sm(r: &mut Rng, rule: usize) -> (String, DeriveInput) {
    let mut spec = valid_spec(r, true);
    if let Body::Sm(b) = &mut spec.body {
        if rule != 6 {
            b.snake &= r.pct(50);
        } else {
            b.snake = false;
        }
    }
    let mut d = parse_def(&emit::definition_with(&spec, false));
    let Data::Struct(s) = &mut d.data else { unreachable!() };
    if matches!(s.fields, Fields::Unit) {
        s.fields = if r.pct(50) {
            Fields::Named(parse_quote!({ plain: LitInt }))
        } else {
            Fields::Unnamed(parse_quote!((#[struct_meta(name = "plain")] LitInt)))
        };
        s.semi_token = matches!(s.fields, Fields::Unnamed(_)).then(Default::default);
    }
    let named = matches!(s.fields, Fields::Named(_));
    let un = |i: usize, ty: &str| {
        if named {
            field(true, &format!("#[struct_meta(unnamed)] culprit{i}: {ty}"))
        } else {
            field(false, ty)
        }
    };
    let nm = |i: usize, name: &str, ty: &str, own: bool| {
        if named && own {
            field(true, &format!("{name}: {ty}"))
        } else if named {
            field(true, &format!("#[struct_meta(name = \"{name}\")] culprit{i}: {ty}"))
        } else {
            field(false, &format!("#[struct_meta(name = \"{name}\")] {ty}"))
        }
    };
    // two culprits keep their order among the other fields
    fn two(r: &mut Rng, f: &mut Fields, a: Field, b: Field) {
        let i = r.below(f.len() + 1);
        push_field(f, a, i);
        let j = r.range(i + 1, f.len());
        push_field(f, b, j);
    }
    let opt = *r.pick(&["Option<LitInt>", "std::option::Option<LitStr>", "core::option::Option<PInt>"]);
    let any_un = *r.pick(&["LitStr", "Option<LitStr>", "Vec<LitStr>", "Expr"]);
    let flagty = *r.pick(&[
        "bool",
        "Flag",
        "structmeta::Flag",
        "NameValue<LitInt>",
        "NameArgs<LitInt>",
        "NameArgs<Option<LitInt>>",
        "NameValue<Option<LitStr>>",
        "NameArgs<Vec<LitStr>>",
        "Option<NameValue<LitStr>>",
        "Option<structmeta::NameArgs<LitStr>>",
    ]);
    let anyty = *r.pick(&["bool", "Flag", "LitInt", "Option<LitStr>", "Vec<LitStr>", "NameValue<LitInt>", "NameArgs<Vec<LitInt>>"]);
    let anyty2 = *r.pick(&["bool", "LitInt", "Option<LitStr>", "Vec<LitStr>", "NameArgs<LitInt>"]);
    let name = match rule {
        0 => {
            let req = *r.pick(&["LitStr", "Expr", "Token![=]"]);
            two(r, &mut s.fields, un(1, opt), un(2, req));
            "required after optional"
        }
        1 => {
            let v = *r.pick(&["Vec<LitInt>", "std::vec::Vec<Expr>"]);
            two(r, &mut s.fields, un(1, v), un(2, any_un));
            "unnamed after variadic"
        }
        2 => {
            let own = r.pct(50);
            let (a, b) = if named && r.pct(30) {
                (field(true, &format!("r#type: {anyty}")), nm(2, "type", anyty2, false))
            } else {
                (nm(1, "culprit", anyty, own), nm(2, "culprit", anyty2, false))
            };
            if r.pct(50) {
                two(r, &mut s.fields, a, b);
            } else {
                two(r, &mut s.fields, b, a);
            }
            "duplicate name"
        }
        3 => {
            let e1 = *r.pick(&["LitInt", "NameValue<LitStr>", "Vec<LitStr>"]);
            let a = format!("HashMap<String, {e1}>");
            let b = "std::collections::HashMap<String, LitStr>".to_string();
            let (a, b) = if named {
                (field(true, &format!("culprit1: {a}")), field(true, &format!("culprit2: {b}")))
            } else {
                (field(false, &a), field(false, &b))
            };
            two(r, &mut s.fields, a, b);
            "two rest maps"
        }
        4 => {
            let i = r.below(s.fields.len() + 1);
            push_field(&mut s.fields, un(1, flagty), i);
            "unnamed flag-style field"
        }
        5 => {
            let i = r.below(s.fields.len() + 1);
            let t = *r.pick(&["Option<Vec<LitInt>>", "core::option::Option<std::vec::Vec<Expr>>"]);
            push_field(&mut s.fields, un(1, t), i);
            "unnamed Option<Vec<_>>"
        }
        6 => {
            match r.below(7) {
                0 => d.attrs.push(parse_quote!(#[struct_meta(unknown)])),
                1 => d.attrs.push(parse_quote!(#[struct_meta(name_filter = "kebab-case")])),
                2 => d.attrs.push(parse_quote!(#[struct_meta(name_filter = "snake_case", name_filter = "snake_case")])),
                3 => {
                    d.attrs.push(parse_quote!(#[struct_meta(name_filter = "snake_case")]));
                    d.attrs.push(parse_quote!(#[struct_meta(name_filter = "snake_case")]));
                }
                4 => d.attrs.push(parse_quote!(#[struct_meta(name_filter)])),
                5 => d.attrs.push(parse_quote!(#[struct_meta(name_filter = snake_case)])),
                _ => d.attrs.push(parse_quote!(#[struct_meta(name = "x")])),
            }
            "unknown or wrong struct argument"
        }
        7 => {
            let a = *r.pick(&["unknown", "name", "name = x", "unnamed = 1", "rename = \"x\"", "\"x\"", "unnamed unnamed", "name = \"x\", unknown", "unnamed, unknown", "unnamed, name"]);
            let i = r.below(s.fields.len() + 1);
            let src = if named {
                format!("#[struct_meta({a})] culprit: LitInt")
            } else {
                format!("#[struct_meta({a})] LitInt")
            };
            push_field(&mut s.fields, field(named, &src), i);
            "unknown field argument"
        }
        8 => {
            d = if r.pct(50) {
                parse_def("enum Kind { A(LitInt), B }")
            } else {
                parse_def("union Kind { a: u32, b: f32 }")
            };
            "not a struct"
        }
        _ => unreachable!(),
    };
    (name.to_string(), d)
}
const BAD_SM: usize = 9;
/// fields without delimiter marks
fn plain_ps(r: &mut Rng, want_enum: Option<bool>) -> DeriveInput {
    loop {
        let s = valid_spec(r, false);
        if want_enum.is_some_and(|e| e != s.is_enum()) {
            continue;
        }
        let mut d = parse_def(&emit::definition_with(&s, false));
        for_fields(&mut d.data, |f| {
            for x in f.iter_mut() {
                x.attrs.retain(|a| !a.path().is_ident("to_tokens") && !a.path().is_ident("parse"));
            }
        });
        if let Data::Enum(e) = &d.data
            && e.variants.is_empty()
        {
            continue;
        }
        return d;
    }
}
fn grow(r: &mut Rng, f: &mut Fields, n: usize) {
    if matches!(f, Fields::Unit) {
        *f = if r.pct(50) {
            Fields::Named(parse_quote!({ plain: LitInt }))
        } else {
            Fields::Unnamed(parse_quote!((LitInt)))
        };
    }
    while f.len() < n {
        let k = f.len();
        let ty = *r.pick(&["LitInt", "Token![=]", "Ident", "LitStr"]);
        let x = match f {
            Fields::Named(_) => field(true, &format!("more{k}: {ty}")),
            _ => field(false, ty),
        };
        push_field(f, x, k);
    }
}
fn attr(src: &str) -> syn::Attribute {
    syn::Attribute::parse_outer.parse_str(src).unwrap().remove(0)
}
/// a Parse (mac 1) or ToTokens (mac 2) definition that breaks one rule
fn bad_ps(r: &mut Rng, mac: usize, rule: usize) -> (String, DeriveInput) {
    let want = match rule {
        3..=5 => Some(true),
        _ => None,
    };
    let mut d = plain_ps(r, want);
    // struct bodies may change their form
    let fix = |d: &mut DeriveInput| {
        if let Data::Struct(s) = &mut d.data {
            s.semi_token = (!matches!(s.fields, Fields::Named(_))).then(Default::default);
        }
    };
    fn at(f: &mut Fields, i: usize) -> &mut Field {
        f.iter_mut().nth(i).unwrap()
    }
    let name = match rule {
        0 => {
            // a close without an open, possibly after a balanced pair
            let f = fields_mut(r, &mut d.data);
            let n = r.range(1, 4);
            grow(r, f, n);
            let i = r.below(f.len());
            let bal = *r.pick(&["", "()", "[()]", "{}"]);
            let c = *r.pick(&[")", "]", "}"]);
            if i > 0 && r.pct(50) {
                let j = r.below(i);
                let (o, cl) = *r.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
                at(f, j).attrs.push(attr(&format!("#[to_tokens(\"{o}\")]")));
                at(f, i).attrs.push(attr(&format!("#[to_tokens(\"{cl}{c}\")]")));
            } else {
                at(f, i).attrs.push(attr(&format!("#[to_tokens(\"{bal}{c}\")]")));
            }
            "closing mark without opening mark"
        }
        1 => {
            let f = fields_mut(r, &mut d.data);
            let n = r.range(2, 5);
            grow(r, f, n);
            let i = r.below(f.len() - 1);
            let j = r.range(i + 1, f.len() - 1);
            let (o, c) = *r.pick(&[("(", "]"), ("(", "}"), ("[", ")"), ("{", ")"), ("[(", "]"), ("({", ")"), ("([{", ")]}"), ("[", "}")]);
            at(f, i).attrs.push(attr(&format!("#[to_tokens(\"{o}\")]")));
            at(f, j).attrs.push(attr(&format!("#[to_tokens(\"{c}\")]")));
            match r.below(4) {
                0 => at(f, i).ty = parse_quote!(syn::MacroDelimiter),
                1 => at(f, i).ty = parse_quote!(syn::token::Paren),
                _ => {}
            }
            "mismatched closing mark"
        }
        2 => {
            let f = fields_mut(r, &mut d.data);
            grow(r, f, 1);
            let i = r.below(f.len());
            let c = *r.pick(&["<", ">", "a", " ", "(x", "|", "()\\n", "(<", ",", "(.", "\u{ff08}"]);
            at(f, i).attrs.push(attr(&format!("#[to_tokens(\"{c}\")]")));
            "not a delimiter mark"
        }
        3 => {
            let f = fields_mut(r, &mut d.data);
            let n = r.range(4, 6);
            grow(r, f, n);
            let k = r.range(4, f.len());
            for i in 0..k {
                at(f, i).attrs.push(attr("#[parse(peek)]"));
            }
            "more than three peeks"
        }
        4 => {
            let f = fields_mut(r, &mut d.data);
            let n = r.range(2, 5);
            grow(r, f, n);
            let i = r.range(1, f.len() - 1);
            at(f, i).attrs.push(attr(*r.pick(&["#[parse(peek)]", "#[parse(peek, any)]", "#[parse(any, peek)]"])));
            let hole = r.below(i);
            for j in 0..i {
                if j < 2 && j != hole {
                    at(f, j).attrs.push(attr("#[parse(peek)]"));
                }
            }
            if r.pct(40) {
                // the one that is not peeked opens a group that is closed before the peek
                let (o, c) = *r.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
                at(f, hole).attrs.push(attr(&format!("#[to_tokens(\"{o}\")]")));
                at(f, hole).ty = parse_quote!(syn::MacroDelimiter);
                at(f, r.range(hole + 1, i)).attrs.push(attr(&format!("#[to_tokens(\"{c}\")]")));
            }
            "peek after a field that is not peeked"
        }
        5 => {
            let f = fields_mut(r, &mut d.data);
            let n = r.range(2, 4);
            grow(r, f, n);
            let i = r.below(f.len() - 1);
            for j in 0..=i {
                if j < 2 {
                    at(f, j).attrs.push(attr("#[parse(peek)]"));
                }
            }
            let m = *r.pick(&["(", "[", "{"]);
            at(f, i).attrs.push(attr(&format!("#[to_tokens(\"{m}\")]")));
            at(f, i + 1).attrs.push(attr("#[parse(peek)]"));
            "peek inside a group"
        }
        6 => {
            let src = if mac == 1 {
                *r.pick(&[
                    "#[parse(unknown)]",
                    "#[parse(peek = 1)]",
                    "#[parse(\"(\")]",
                    "#[parse(peek2)]",
                    "#[parse(any peek)]",
                    "#[parse(any, unknown)]",
                    "#[parse = \"any\"]",
                ])
            } else {
                *r.pick(&["#[to_tokens(unknown)]", "#[to_tokens(1)]", "#[to_tokens(\"\" x)]", "#[to_tokens('(')]", "#[to_tokens(\"(\", peek)]", "#[to_tokens = \"(\"]"])
            };
            if r.pct(35) {
                d.attrs.push(attr(src));
            } else {
                let f = fields_mut(r, &mut d.data);
                grow(r, f, 1);
                let i = r.below(f.len());
                at(f, i).attrs.push(attr(src));
            }
            "unknown helper argument"
        }
        7 => {
            // wrong to_tokens argument seen by derive(Parse), too
            let f = fields_mut(r, &mut d.data);
            grow(r, f, 1);
            let i = r.below(f.len());
            at(f, i)
                .attrs
                .push(attr(*r.pick(&["#[to_tokens(unknown)]", "#[to_tokens(1)]", "#[to_tokens(\"(\" \")\")]"])));
            "unknown to_tokens argument"
        }
        8 => {
            d = parse_def("union Kind { a: u32, b: f32 }");
            "union"
        }
        _ => unreachable!(),
    };
    fix(&mut d);
    (name.to_string(), d)
}
fn ps_rules(mac: usize) -> &'static [usize] {
    if mac == 1 {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8]
    } else {
        &[0, 1, 2, 6, 7, 8]
    }
}
fn wide(r: &mut Rng) -> DeriveInput {
    let n = r.range(20, 90);
    let mut s = String::from("struct Wide {");
    for i in 0..n {
        let ty = *r.pick(&["bool", "LitInt", "Option<LitStr>", "Vec<LitStr>", "NameValue<LitInt>", "NameArgs<Option<Vec<LitInt>>>", "Flag"]);
        s.push_str(&format!("p{}_{i}: {ty},", r.below(1000)));
    }
    s.push('}');
    parse_def(&s)
}
fn valid(r: &mut Rng, mac: usize) -> (String, DeriveInput) {
    let mut d = if mac == 0 && r.pct(8) {
        wide(r)
    } else {
        parse_def(&emit::definition_with(&valid_spec(r, mac == 0), false))
    };
    decorate(r, &mut d, mac);
    if r.pct(6) {
        // for another derive
        let at = r.below(d.attrs.len() + 1);
        let a = if mac == 2 { parse_quote!(#[parse(dump)]) } else { parse_quote!(#[to_tokens(dump)]) };
        d.attrs.insert(at, a);
    }
    ("valid".into(), d)
}
const HELPERS: [&str; 3] = ["struct_meta", "parse", "to_tokens"];
/// with the dump option of its derive, in one of its places
fn ask_dump(r: &mut Rng, mac: usize, d: &mut DeriveInput) {
    if let Some(a) = d.attrs.iter_mut().find(|a| a.path().is_ident(HELPERS[mac]))
        && let Ok(l) = a.meta.require_list()
        && r.pct(60)
    {
        let t = l.tokens.clone();
        let h = quote::format_ident!("{}", HELPERS[mac]);
        *a = match (t.is_empty(), r.below(2)) {
            (true, _) => parse_quote!(#[#h(dump)]),
            (_, 0) => parse_quote!(#[#h(dump, #t)]),
            _ => {
                let comma = t.to_string().ends_with(',');
                if comma { parse_quote!(#[#h(#t dump)]) } else { parse_quote!(#[#h(#t, dump)]) }
            }
        };
        return;
    }
    let h = quote::format_ident!("{}", HELPERS[mac]);
    let a: syn::Attribute = match r.below(8) {
        0 => parse_quote!(#[#h(dump,)]),
        1 => parse_quote!(#[#h(dump, dump)]),
        _ => parse_quote!(#[#h(dump)]),
    };
    let at = r.below(d.attrs.len() + 1);
    d.attrs.insert(at, a);
}
fn dump_for(d: &Def, mac: usize) -> bool {
    d.src.contains("dump")
        && parse_def(&d.src).attrs.iter().any(|a| a.path().is_ident(HELPERS[mac]) && {
            let t = a.meta.require_list().map(|l| l.tokens.clone()).unwrap_or_default();
            t.into_iter().any(|t| matches!(t, TokenTree::Ident(i) if i == "dump"))
        })
}
/// asks for a dump of another derive's code, which must not matter
pub fn foreign_dump(d: &Def) -> bool {
    d.class == "valid" && (0..3).any(|m| m != d.mac && dump_for(d, m))
}
/// the same definition without any such option
pub fn undump(d: &Def) -> Def {
    let mut x = parse_def(&d.src);
    for a in x.attrs.iter_mut() {
        let Some(h) = HELPERS.iter().find(|h| a.path().is_ident(h)) else {
            continue;
        };
        let Ok(l) = a.meta.require_list() else { continue };
        let mut out = TokenStream::new();
        let mut it = l.tokens.clone().into_iter().peekable();
        while let Some(t) = it.next() {
            if matches!(&t, TokenTree::Ident(i) if i == "dump") {
                if matches!(it.peek(), Some(TokenTree::Punct(p)) if p.as_char() == ',') {
                    it.next();
                }
            } else {
                out.extend([t]);
            }
        }
        let h = quote::format_ident!("{h}");
        *a = parse_quote!(#[#h(#out)]);
    }
    Def {
        mac: d.mac,
        class: "valid".into(),
        src: text(&x),
    }
}
/// everything a compile error or an abort would show
fn shown(e: &Exp) -> String {
    fn lits(ts: TokenStream, o: &mut String) {
        for t in ts {
            match t {
                TokenTree::Group(g) => lits(g.stream(), o),
                TokenTree::Literal(l) => {
                    if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                        o.push_str(&s.value());
                    }
                }
                _ => {}
            }
        }
    }
    match e {
        Exp::Panic(s) => s.clone(),
        Exp::Reject(s) | Exp::Impl(s) => {
            let mut o = String::new();
            lits(s.parse().unwrap_or_default(), &mut o);
            o
        }
    }
}
/// `plain`: what the definition without the dump option expands to
pub fn judge_dump(got: &Exp, plain: &Exp) -> Vec<(&'static str, &'static str, String)> {
    let Exp::Impl(code) = plain else { return vec![] };
    if let Exp::Impl(_) = got {
        return vec![("C17", "not shown", "a definition with the dump option compiled without a message".into())];
    }
    // white space counts only where it keeps two words apart
    let bare = |s: &str| -> String {
        let word = |c: char| c == '_' || c.is_alphanumeric();
        let (mut o, mut gap) = (String::new(), false);
        for c in s.chars() {
            if c.is_whitespace() {
                gap = true;
                continue;
            }
            if gap && word(c) && o.chars().next_back().is_some_and(word) {
                o.push(' ');
            }
            gap = false;
            o.push(c);
        }
        o
    };
    let (all, code) = (bare(&shown(got)), bare(code));
    if all.contains(&code) {
        return vec![];
    }
    vec![("C17", "other code", format!("shown: {}; without the dump option: {code}", shown(got)))]
}
/// `plain`: what the definition without the other derives' dump options expands to
pub fn judge_foreign(got: &Exp, plain: &Exp) -> Vec<(&'static str, &'static str, String)> {
    if matches!(plain, Exp::Impl(_)) && got != plain {
        let d = format!("another derive's dump option made a difference: {} {}", got.class(), diff(plain.text(), got.text()));
        return vec![("C17", "affected", d)];
    }
    vec![]
}
/// the same definition given to the other one of Parse and ToTokens
fn kin(d: &Def) -> Option<Def> {
    (d.mac != 0 && (d.class == "valid" || d.class == "dump") && !dump_for(d, 3 - d.mac)).then(|| Def {
        mac: 3 - d.mac,
        class: "valid".into(),
        src: d.src.clone(),
    })
}
/// a definition that differs from `d` in one detail
fn twin(r: &mut Rng, d: &Def) -> Option<Def> {
    if d.src.contains("extra_param") || d.src.contains("extra_field") {
        return None;
    }
    let mut x = parse_def(&d.src);
    if matches!(&x.data, Data::Enum(e) if e.variants.is_empty()) {
        return None;
    }
    let mut class = d.class.clone();
    match r.below(11) {
        0 => {
            // another field of the same kind
            let f = fields_mut(r, &mut x.data);
            if d.mac == 0 {
                let Fields::Named(n) = f else { return None };
                n.named.push(field(true, "extra_param: Option<LitInt>"));
            } else {
                match f {
                    Fields::Named(n) => n.named.push(field(true, "extra_field: LitInt")),
                    Fields::Unnamed(n) => n.unnamed.push(field(false, "LitInt")),
                    Fields::Unit => return None,
                }
            }
        }
        1 => {
            let mut done = false;
            let f = fields_mut(r, &mut x.data);
            for y in f.iter_mut() {
                let t = y.ty.to_token_stream().to_string();
                if !done && (t == "LitInt" || t == "PInt") {
                    y.ty = parse_quote!(LitFloat);
                    done = true;
                }
            }
            if !done {
                return None;
            }
        }
        2 => {
            // same text, other name
            x.ident = quote::format_ident!("Renamed{}", r.below(3));
            if let Data::Enum(_) = x.data {
                return None;
            }
        }
        3 | 4 if d.mac == 0 => {
            // another parameter name
            let Data::Struct(s) = &mut x.data else { return None };
            let named = matches!(s.fields, Fields::Named(_));
            let name = *r.pick(&["extra_param", "extra_param_b"]);
            let mut at: Vec<usize> = (0..s.fields.len()).collect();
            r.shuffle(&mut at);
            let f = at.into_iter().find(|i| {
                let f = s.fields.iter().nth(*i).unwrap();
                let a: String = f.attrs.iter().filter(|a| a.path().is_ident("struct_meta")).map(|a| text_of(a)).collect();
                let t = text_of(&f.ty);
                !t.contains("HashMap") && !a.contains("unnamed") && (named || a.contains("name"))
            })?;
            let f = s.fields.iter_mut().nth(f).unwrap();
            f.attrs.retain(|a| !a.path().is_ident("struct_meta"));
            f.attrs.push(parse_quote!(#[struct_meta(name = #name)]));
        }
        5 | 6 if d.mac == 0 => {
            // with or without the name filter
            let n = x.attrs.len();
            x.attrs.retain(|a| !(a.path().is_ident("struct_meta") && text_of(a).contains("name_filter")));
            if x.attrs.len() == n {
                x.attrs.push(parse_quote!(#[struct_meta(name_filter = "snake_case")]));
            }
        }
        3 if d.mac != 0 => {
            // other delimiters
            let (o, c) = *r.pick(&[("[", "]"), ("{", "}"), ("(", ")")]);
            let mut n = 0;
            for_fields(&mut x.data, |f| {
                for a in f.iter_mut().flat_map(|f| f.attrs.iter_mut()).filter(|a| a.path().is_ident("to_tokens")) {
                    let s = text_of(a);
                    // the outer brackets stay
                    let (i, j) = (s.find('"').unwrap_or(0), s.rfind('"').unwrap_or(0));
                    let m: String = s[i..j]
                        .chars()
                        .map(|x| match x {
                            '(' | '[' | '{' => o.to_string(),
                            ')' | ']' | '}' => c.to_string(),
                            x => x.to_string(),
                        })
                        .collect();
                    *a = attr(&format!("{}{m}{}", &s[..i], &s[j..]));
                    n += 1;
                }
            });
            if n == 0 {
                return None;
            }
        }
        4 | 5 if d.mac == 1 => {
            // without the peeks, or without the other parse arguments
            let mut n = 0;
            for_fields(&mut x.data, |f| {
                for y in f.iter_mut() {
                    let k = y.attrs.len();
                    y.attrs.retain(|a| !a.path().is_ident("parse"));
                    n += k - y.attrs.len();
                }
            });
            if n == 0 {
                return None;
            }
        }
        7 => {
            // another field name
            let n = *r.pick(&["extra_field_b", "extra_field_c"]);
            let f = fields_mut(r, &mut x.data);
            let Fields::Named(v) = f else { return None };
            let k = v.named.len();
            if k == 0 {
                return None;
            }
            v.named[r.below(k)].ident = Some(quote::format_ident!("{n}"));
        }
        8 => {
            // other generics
            if !x.generics.params.is_empty() {
                return None;
            }
            x.generics = parse_quote!(<ExtraT: Clone>);
        }
        9 => {
            // one that must be rejected
            class = "unknown helper argument".into();
            x.attrs.push(match d.mac {
                0 => parse_quote!(#[struct_meta(extra_param)]),
                1 => parse_quote!(#[parse(extra_param)]),
                _ => parse_quote!(#[to_tokens(extra_param)]),
            });
        }
        _ => {
            // another variant name or field order
            match &mut x.data {
                Data::Enum(e) if !e.variants.is_empty() => {
                    let n = e.variants.len();
                    e.variants[r.below(n)].ident = quote::format_ident!("ExtraVariant");
                }
                Data::Struct(s) if d.mac == 0 => {
                    let Fields::Named(v) = &mut s.fields else { return None };
                    if v.named.iter().any(|f| text_of(f).contains("unnamed")) || v.named.len() < 2 {
                        return None;
                    }
                    let mut all: Vec<Field> = v.named.iter().cloned().collect();
                    r.shuffle(&mut all);
                    v.named = all.into_iter().collect();
                }
                _ => return None,
            }
        }
    }
    Some(Def {
        src: text(&x),
        class,
        ..d.clone()
    })
}
fn text_of(x: &impl ToTokens) -> String {
    x.to_token_stream().to_string()
}
pub fn gen_def(r: &mut Rng, kind: usize) -> Def {
    let mac = r.weighted(&[40, 35, 25]);
    let (class, mut d) = match kind {
        0 => valid(r, mac),
        1 => {
            if mac == 0 {
                let rule = r.below(BAD_SM);
                bad_sm(r, rule)
            } else {
                let rule = *r.pick(ps_rules(mac));
                bad_ps(r, mac, rule)
            }
        }
        _ => {
            let (_, mut d) = valid(r, mac);
            ask_dump(r, mac, &mut d);
            ("dump".to_string(), d)
        }
    };
    if r.pct(40) && !matches!(d.data, Data::Enum(_)) {
        d.ident = quote::format_ident!("{}", *r.pick(&["Same", "Args", "Item"]));
    }
    Def {
        mac,
        class,
        src: text(&d),
    }
}
pub fn gen_session(prop: &str, seed: u64, k: u64) -> Session {
    let mut r = Rng::sub(seed, 0x5E55, k);
    let r = &mut r;
    let mut s = Session {
        hash: r.next(),
        ..Session::default()
    };
    let n = r.range(2, 10);
    let w: [usize; 3] = if prop == "C17" {
        [34, 8, 58]
    } else if prop == "C11" {
        [35, 55, 10]
    } else if prop == "C16" {
        [80, 12, 8]
    } else { [65, 22, 13] };
    for _ in 0..n {
        if !s.defs.is_empty() && r.pct(40) {
            let b = r.pick(&s.defs).clone();
            if prop == "C16"
                && r.pct(50)
                && b.class == "valid"
            {
                // the same but for its generics
                let mut x = parse_def(&b.src);
                generics(r, &mut x);
                s.defs.push(Def {
                    mac: b.mac,
                    class: b.class,
                    src: text(&x),
                });
                continue;
            }
            if r.pct(35)
                && let Some(t) = kin(&b)
            {
                s.defs.push(t);
                continue;
            }
            if b.class == "valid"
                && let Some(t) = twin(r, &b)
            {
                s.defs.push(t);
                continue;
            }
        }
        let kind = r.weighted(&w);
        let mut d = gen_def(r, kind);
        if prop == "C16" && r.pct(75) {
            let mut x = parse_def(&d.src);
            generics(r, &mut x);
            d.src = text(&x);
        }
        s.defs.push(d);
    }
    let threads = if r.pct(45) { r.range(2, 3) } else { 1 };
    let total = if r.pct(2) {
        // a long one
        r.range(40, 250)
    } else {
        r.range(s.defs.len(), s.defs.len() * 3)
    };
    let mut order: Vec<usize> = (0..total)
        .map(|i| if i < s.defs.len() { i } else { r.below(s.defs.len()) })
        .collect();
    r.shuffle(&mut order);
    s.threads = vec![vec![]; threads];
    for d in order {
        let t = r.below(threads);
        s.threads[t].push(d);
    }
    if threads > 1 {
        let m = r.range(10, 60);
        s.sched = (0..m).map(|_| r.below(3) as u8).collect();
        for _ in 0..threads {
            let scale = *r.pick(&[20usize, 120, 700, 3000]);
            let m = r.range(2, 30);
            s.gaps.push((0..m).map(|_| r.below(scale) as u32).collect());
        }
    }
    s
}
