//! What the simulated field parsers accept when no fault is injected, and the
//! token helpers shared by the environment and the reference model. Nothing
//! here touches structmeta.
use crate::ir::Leaf;
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use syn::parse::{Parse, ParseStream, Parser};

pub fn off(t: &TokenTree) -> usize {
    let s = match t {
        TokenTree::Group(g) => g.span_open(),
        t => t.span(),
    };
    s.byte_range().start
}
/// Groups without delimiters, as macro fragments come in, are nothing but their
/// content.
pub fn transparent(v: Vec<TokenTree>) -> Vec<TokenTree> {
    fn any(t: &TokenTree) -> bool {
        matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::None || g.stream().into_iter().any(|t| any(&t)))
    }
    if !v.iter().any(any) {
        return v;
    }
    let mut o = Vec::new();
    for t in v {
        match t {
            TokenTree::Group(g) => {
                let inner = transparent(g.stream().into_iter().collect());
                if g.delimiter() == Delimiter::None {
                    o.extend(inner);
                } else {
                    let mut new = Group::new(g.delimiter(), inner.into_iter().collect());
                    new.set_span(g.span());
                    o.push(new.into());
                }
            }
            t => o.push(t),
        }
    }
    o
}
/// how many tokens a probe needs to look at
pub fn window(k: Leaf) -> usize {
    match k {
        Leaf::PInt | Leaf::PStr | Leaf::PId | Leaf::PGrp => 1,
        Leaf::PTwo => 2,
        Leaf::PPair => 3,
        Leaf::PNil => 0,
        _ => usize::MAX,
    }
}
pub fn is_comma(t: &TokenTree) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == ',')
}
fn is_int(t: &TokenTree) -> bool {
    matches!(t, TokenTree::Literal(l) if l.to_string().starts_with(|c: char| c.is_ascii_digit()) && !l.to_string().contains('.'))
}
fn is_str(t: &TokenTree) -> bool {
    matches!(t, TokenTree::Literal(l) if l.to_string().starts_with('"'))
}
/// number of tokens the probe consumes at the start of `t`, or None
pub fn normal(k: Leaf, t: &[TokenTree]) -> Option<usize> {
    match k {
        Leaf::PInt => (t.first().is_some_and(is_int)).then_some(1),
        Leaf::PStr => (t.first().is_some_and(is_str)).then_some(1),
        Leaf::PId => matches!(t.first(), Some(TokenTree::Ident(_))).then_some(1),
        Leaf::PGrp => matches!(t.first(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis).then_some(1),
        Leaf::PRest => {
            let n = t.iter().position(is_comma).unwrap_or(t.len());
            (n > 0).then_some(n)
        }
        Leaf::PTwo => (t.len() >= 2).then_some(2),
        Leaf::PPair => {
            (t.len() >= 3 && is_int(&t[0]) && is_comma(&t[1]) && is_int(&t[2])).then_some(3)
        }
        Leaf::PNil => Some(0),
        Leaf::PAll => Some(t.len()),
        Leaf::PExpr => real::<syn::Expr>(t).ok().filter(|x| !x.1).map(|x| x.0),
        _ => real_leaf(k, t).ok().map(|x| x.0),
    }
}
/// tokens taken, and whether tokens were left unread inside a group the parser
/// entered (syn reports those only when the whole parse ends)
fn real<T: Parse>(t: &[TokenTree]) -> Result<(usize, bool), String> {
    let n = t.len();
    let ts: TokenStream = t.iter().cloned().collect();
    let got = std::cell::Cell::new(None);
    let f = |i: ParseStream| {
        let _: T = i.parse()?;
        let r: TokenStream = i.parse()?;
        got.set(Some(n - r.into_iter().count()));
        Ok(())
    };
    let r = f.parse2(ts);
    match (got.get(), r) {
        (Some(n), r) => Ok((n, r.is_err())),
        (None, Err(e)) => Err(e.to_string()),
        (None, Ok(())) => unreachable!(),
    }
}
/// real syn types: how much the real parser takes
pub fn real_leaf(k: Leaf, t: &[TokenTree]) -> Result<(usize, bool), String> {
    match k {
        Leaf::RInt => real::<syn::LitInt>(t),
        Leaf::RStr => real::<syn::LitStr>(t),
        Leaf::RExpr => real::<syn::Expr>(t),
        Leaf::RBool => real::<syn::LitBool>(t),
        Leaf::RIdent => real::<syn::Ident>(t),
        Leaf::RType => real::<syn::Type>(t),
        _ => unreachable!(),
    }
}
/// canonical text of tokens: independent of spacing, keeps grouping
pub fn flat(ts: &[TokenTree]) -> String {
    let mut o = String::new();
    flat_into(ts.iter().cloned(), &mut o);
    o
}
pub fn flat_ts(ts: &TokenStream) -> String {
    let mut o = String::new();
    flat_into(ts.clone().into_iter(), &mut o);
    o
}
/// where the tokens are; a group counts with both its ends
pub fn places(ts: &[TokenTree]) -> Vec<usize> {
    let mut o = Vec::new();
    places_into(ts.iter().cloned(), &mut o);
    o
}
pub fn places_ts(ts: &TokenStream) -> Vec<usize> {
    let mut o = Vec::new();
    places_into(ts.clone().into_iter(), &mut o);
    o
}
fn places_into(ts: impl Iterator<Item = TokenTree>, o: &mut Vec<usize>) {
    for t in ts {
        o.push(off(&t));
        if let TokenTree::Group(g) = t {
            places_into(g.stream().into_iter(), o);
            o.push(g.span_close().byte_range().start);
        }
    }
}
/// one string per top-level token
pub fn flat_list(ts: &TokenStream) -> Vec<String> {
    let mut v = Vec::new();
    for t in ts.clone() {
        let s = flat(&[t]);
        if let Some(r) = s.strip_prefix("- ") {
            v.push("-".to_string());
            v.push(r.to_string());
        } else {
            v.push(s);
        }
    }
    v
}
fn flat_into(ts: impl Iterator<Item = TokenTree>, o: &mut String) {
    for t in ts {
        if !o.is_empty() {
            o.push(' ');
        }
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("<", ">"),
                };
                o.push_str(a);
                flat_into(g.stream().into_iter(), o);
                o.push(' ');
                o.push_str(b);
            }
            TokenTree::Literal(l) => {
                let s = l.to_string();
                if let Some(r) = s.strip_prefix('-') {
                    o.push_str("- ");
                    o.push_str(r);
                } else {
                    o.push_str(&s);
                }
            }
            TokenTree::Ident(i) => o.push_str(&i.to_string()),
            TokenTree::Punct(p) => o.push(p.as_char()),
        }
    }
}
/// `=` that is not the start of `==` or `=>`
pub fn is_eq_op(t: &[TokenTree]) -> bool {
    match t.first() {
        Some(TokenTree::Punct(p)) if p.as_char() == '=' => {
            !(p.spacing() == Spacing::Joint
                && matches!(t.get(1), Some(TokenTree::Punct(q)) if q.as_char() == '=' || q.as_char() == '>'))
        }
        _ => false,
    }
}
/// does `Token![tok]` match here
pub fn is_tok(tok: &str, t: &[TokenTree]) -> bool {
    tok_len(tok, t).is_some()
}
pub fn tok_len(tok: &str, t: &[TokenTree]) -> Option<usize> {
    if tok.starts_with(|c: char| c.is_alphabetic()) {
        return matches!(t.first(), Some(TokenTree::Ident(i)) if i == tok).then_some(1);
    }
    let cs: Vec<char> = tok.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        match t.get(i) {
            Some(TokenTree::Punct(p)) if p.as_char() == *c => {
                if i + 1 < cs.len() && p.spacing() != Spacing::Joint {
                    return None;
                }
            }
            _ => return None,
        }
    }
    Some(cs.len())
}
