//! Executable reference model of what the documentation promises, over plain
//! token vectors. Written against the spec, not against the generated code.
use crate::grammar::{flat, is_comma, is_eq_op, normal, off, places, real_leaf, tok_len};
use crate::ir::*;
use crate::op::{Entry, Fault, Op};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum ME {
    /// the error of field parser call number `.0`
    Probe(usize),
    /// an error of the derived code itself (or of a real syn type)
    Own(&'static str),
    /// any error
    Any,
    Panic(usize),
}
#[derive(Clone, Debug, Default)]
pub struct Mv {
    pub canon: String,
    /// simulated fields of the value in rendering order
    pub probes: Vec<(Leaf, usize)>,
    /// rendered tokens
    pub text: String,
    /// and where they are
    pub places: Vec<usize>,
}
impl Mv {
    fn push(&mut self, sep: &str, v: Mv) {
        self.canon.push_str(sep);
        self.canon.push_str(&v.canon);
        self.probes.extend(v.probes);
        self.places.extend(v.places);
        self.add_text(&v.text);
    }
    fn add_text(&mut self, t: &str) {
        if !t.is_empty() {
            if !self.text.is_empty() {
                self.text.push(' ');
            }
            self.text.push_str(t);
        }
    }
}
pub struct Expect {
    pub res: Result<(Mv, Option<String>), ME>,
    pub events: Vec<(Leaf, usize)>,
    /// from this event on calls are not prescribed
    pub lenient: Option<usize>,
    pub uncertain: bool,
    pub cov: BTreeSet<&'static str>,
    /// a fault made some field parser deviate
    pub disturbed: bool,
    /// retries of nested alternatives make it too long: nothing is prescribed
    pub heavy: bool,
    /// the parameters an unknown name may be similar to
    pub hint: Option<Hint>,
}
/// an argument with a name no parameter has
#[derive(Clone, Debug)]
pub struct Hint {
    pub name: String,
    pub params: Vec<String>,
    /// may be named in the message
    pub allowed: Option<String>,
    /// must be named in the message
    pub must: bool,
}
/// 1: one character inserted, deleted or changed; 2: two neighbours swapped
pub fn near(a: &str, b: &str) -> Option<usize> {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let (s, l) = if a.len() <= b.len() { (&a, &b) } else { (&b, &a) };
    if s.len() + 1 == l.len() {
        let one = (0..l.len()).any(|i| l[..i] == s[..i] && l[i + 1..] == s[i..]);
        return one.then_some(1);
    }
    if s.len() != l.len() {
        return None;
    }
    let diff: Vec<usize> = (0..s.len()).filter(|i| s[*i] != l[*i]).collect();
    match diff[..] {
        [] => Some(0),
        [_] => Some(1),
        [i, j] if i + 1 == j && s[i] == l[j] && s[j] == l[i] => Some(2),
        _ => None,
    }
}
fn hint(s: &SmSpec, name: &str) -> Hint {
    let mut params: Vec<String> = s
        .fields
        .iter()
        .filter(|f| f.role == Role::Named)
        .map(|f| f.name.clone())
        .collect();
    let mut c: Vec<(usize, &String)> = params.iter().filter_map(|p| Some((near(p, name)?, p))).collect();
    c.sort();
    let unique = match c[..] {
        [] => None,
        [x] => Some(x),
        [x, y, ..] => (x.0 < y.0).then_some(x),
    };
    let allowed = unique.map(|x| x.1.clone());
    let must = c.len() == 1 && !s.fields.iter().any(|f| f.role == Role::Rest);
    params.retain(|p| p != name);
    Hint {
        name: name.to_string(),
        params,
        allowed,
        must,
    }
}
struct Sc {
    t: Vec<TokenTree>,
    p: usize,
}
impl Sc {
    fn new(ts: TokenStream) -> Sc {
        Sc {
            t: ts.into_iter().collect(),
            p: 0,
        }
    }
    fn rest(&self) -> &[TokenTree] {
        &self.t[self.p..]
    }
    fn empty(&self) -> bool {
        self.p >= self.t.len()
    }
    fn off(&self) -> usize {
        self.t.get(self.p).map_or(0, off)
    }
    fn group(&self, d: Delimiter) -> Option<TokenStream> {
        match self.t.get(self.p) {
            Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.stream()),
            _ => None,
        }
    }
    fn comma(&mut self) -> Result<(), ME> {
        if self.rest().first().is_some_and(is_comma) {
            self.p += 1;
            Ok(())
        } else {
            Err(ME::Own("comma"))
        }
    }
}
/// calls of one operation
const MOST_WORK: usize = 6000;
pub struct Model<'a> {
    work: usize,
    specs: &'a [Spec],
    op: Option<&'a Op>,
    inv: usize,
    events: Vec<(Leaf, usize)>,
    /// one entry per fork level: tokens were left over in a group
    left: Vec<bool>,
    lenient: Option<usize>,
    uncertain: bool,
    disturbed: bool,
    cov: BTreeSet<&'static str>,
    hint: Option<Hint>,
}
pub fn delim(c: char) -> Delimiter {
    match c {
        '(' => Delimiter::Parenthesis,
        '[' => Delimiter::Bracket,
        _ => Delimiter::Brace,
    }
}
fn close(c: char) -> char {
    match c {
        '(' => ')',
        '[' => ']',
        _ => '}',
    }
}
pub fn is_snake(s: &str) -> bool {
    s.bytes()
        .all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'_')
}
/// expected outcome of an operation
pub fn expect(specs: &[Spec], op: &Op) -> Expect {
    let ts = op.tokens();
    let top: Vec<TokenTree> = ts.into_iter().collect();
    let inner = match op.entry {
        Entry::Whole | Entry::Tail => top,
        Entry::Attr => match &top[1] {
            TokenTree::Group(g) => match g.stream().into_iter().nth(1) {
                Some(TokenTree::Group(g)) => g.stream().into_iter().collect(),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        },
        Entry::Group => match &top[0] {
            TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => unreachable!(),
        },
    };
    run(specs, op.spec, inner, Some(op), op.entry.tail())
}
/// expected outcome of parsing `toks` without faults
pub fn run(specs: &[Spec], spec: usize, toks: Vec<TokenTree>, op: Option<&Op>, tail: bool) -> Expect {
    let mut m = Model {
        specs,
        op,
        inv: 0,
        events: Vec::new(),
        left: vec![false],
        lenient: None,
        uncertain: false,
        disturbed: false,
        cov: BTreeSet::new(),
        hint: None,
        work: 0,
    };
    let mut sc = Sc { t: toks, p: 0 };
    let r = m.spec(spec, &mut sc);
    let res = match r {
        Err(e) => Err(e),
        Ok(v) => {
            if m.left[0] {
                m.cov.insert("leftover_in_group");
                Err(ME::Own("leftover in group"))
            } else if tail {
                Ok((v, Some(format!("{}:{}", sc.off(), flat(sc.rest())))))
            } else if !sc.empty() {
                Err(ME::Own("trailing tokens"))
            } else {
                Ok((v, None))
            }
        }
    };
    match &res {
        Ok(_) => m.cov.insert("outcome_value"),
        Err(ME::Probe(_)) => m.cov.insert("outcome_field_error"),
        Err(ME::Panic(_)) => m.cov.insert("outcome_field_panic"),
        Err(_) => m.cov.insert("outcome_own_error"),
    };
    Expect {
        res,
        events: m.events,
        lenient: m.lenient,
        uncertain: m.uncertain,
        cov: m.cov,
        disturbed: m.disturbed,
        heavy: m.work > MOST_WORK,
        hint: m.hint,
    }
}
impl Model<'_> {
    fn spec(&mut self, id: usize, sc: &mut Sc) -> Result<Mv, ME> {
        self.work += 1;
        if self.work > MOST_WORK {
            return Err(ME::Own("too long"));
        }
        let specs = self.specs;
        let s = &specs[id];
        match &s.body {
            Body::Sm(b) => self.sm(id, b, sc),
            Body::Ps(PsSpec::Struct(f)) => {
                let mut v = self.fields(f, sc)?;
                v.canon = format!("S{id}({})", v.canon);
                Ok(v)
            }
            Body::Ps(PsSpec::Enum(vs)) => self.en(id, vs, sc),
        }
    }
    fn ty(&mut self, ty: &Ty, sc: &mut Sc) -> Result<Mv, ME> {
        match ty {
            Ty::Leaf(k) | Ty::Gen(k) => self.leaf(*k, sc),
            Ty::Sub(i) => self.spec(*i, sc),
        }
    }
    fn leaf(&mut self, k: Leaf, sc: &mut Sc) -> Result<Mv, ME> {
        self.work += 1;
        if self.work > MOST_WORK {
            return Err(ME::Own("too long"));
        }
        let o = sc.off();
        if !k.is_probe() {
            return match real_leaf(k, sc.rest()) {
                Ok((n, left)) => {
                    if left {
                        *self.left.last_mut().unwrap() = true;
                    }
                    let toks = &sc.rest()[..n];
                    let (text, places) = reprint(k, toks);
                    sc.p += n;
                    Ok(Mv {
                        canon: format!("{}\"{}\"@{}", k.name(), text, o),
                        probes: vec![],
                        text,
                        places,
                    })
                }
                Err(_) => Err(ME::Own("syn type")),
            };
        }
        let inv = self.inv;
        self.inv += 1;
        self.events.push((k, o));
        let mut n = normal(k, sc.rest());
        if let Some(op) = self.op {
            let f = if op.perm.contains(&o) && o != 0 {
                Some(&Fault::ErrBefore)
            } else {
                let f = op.faults.iter().find(|x| x.0 == inv).map(|x| &x.1);
                match f {
                    None | Some(Fault::ForkWaste(_) | Fault::Nest(_)) if op.stuck.is_some_and(|k| inv >= k) => {
                        Some(&Fault::Weird(0))
                    }
                    f => f,
                }
            };
            match f {
                Some(Fault::ErrBefore | Fault::ErrAfter(_) | Fault::ErrFull) => {
                    self.disturbed = true;
                    return Err(ME::Probe(inv));
                }
                Some(Fault::PanicBefore | Fault::PanicAfter(_)) => {
                    self.disturbed = true;
                    return Err(ME::Panic(inv));
                }
                Some(Fault::Weird(w)) => {
                    self.disturbed = true;
                    n = Some((*w).min(sc.rest().len()));
                }
                Some(Fault::ForkWaste(_) | Fault::Nest(_)) | None => {}
            }
        }
        match n {
            Some(n) => {
                let text = flat(&sc.rest()[..n]);
                let places = places(&sc.rest()[..n]);
                sc.p += n;
                Ok(Mv {
                    canon: format!("{}\"{}\"@{}", k.name(), text, o),
                    probes: vec![(k, o)],
                    text,
                    places,
                })
            }
            None => Err(ME::Probe(inv)),
        }
    }
    // ------------------------------------------------------------ StructMeta
    fn sm(&mut self, id: usize, s: &SmSpec, sc: &mut Sc) -> Result<Mv, ME> {
        let n = s.fields.len();
        let mut val: Vec<Option<String>> = vec![None; n];
        let mut lists: Vec<Vec<String>> = vec![Vec::new(); n];
        let mut maps: Vec<BTreeMap<String, String>> = vec![BTreeMap::new(); n];
        let by = |r: Role| -> Vec<usize> { (0..n).filter(|i| s.fields[*i].role == r).collect() };
        let (req, opt, var, named, rest) = (
            by(Role::Req),
            by(Role::Opt),
            by(Role::Var).first().copied(),
            by(Role::Named),
            by(Role::Rest).first().copied(),
        );
        let mut next = false;
        for &i in &req {
            if next {
                if sc.empty() {
                    self.cov.insert("too_few_positional");
                    return Err(ME::Own("too few"));
                }
                sc.comma()?;
            }
            next = true;
            val[i] = Some(self.ty(s.fields[i].style.ty().unwrap(), sc)?.canon);
        }
        let positional_only_required = opt.is_empty() && var.is_none();
        let may = |f: fn(&Style) -> bool| -> bool {
            named.iter().chain(rest.iter()).any(|i| f(&s.fields[*i].style))
        };
        let (may_flag, may_nv, may_na) = (
            may(Style::flag),
            may(Style::name_value),
            may(Style::name_args),
        );
        let mut used = 0;
        let mut named_seen = false;
        while !sc.empty() {
            if next {
                sc.comma()?;
                if sc.empty() {
                    self.cov.insert("trailing_comma");
                    break;
                }
            }
            next = true;
            // shape of the argument
            let mut shape = None;
            let mut name = String::new();
            let noff = sc.off();
            if let Some(TokenTree::Ident(i)) = sc.rest().first() {
                name = i.to_string();
                if !s.snake || is_snake(&name) {
                    let after = &sc.rest()[1..];
                    if after.first().is_none_or(is_comma) {
                        if positional_only_required || may_flag {
                            shape = Some(0);
                        }
                    } else if is_eq_op(after) {
                        if positional_only_required || may_nv {
                            shape = Some(1);
                        }
                    } else if matches!(&after[0], TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis)
                        && (positional_only_required || may_na)
                    {
                        shape = Some(2);
                    }
                } else {
                    self.cov.insert("name_filtered");
                }
            }
            let Some(shape) = shape else {
                if positional_only_required {
                    return Err(ME::Own("too many positional"));
                }
                if named_seen {
                    self.cov.insert("unnamed_after_named");
                    return Err(ME::Own("unnamed after named"));
                }
                if let Some(&i) = opt.get(used) {
                    val[i] = Some(self.ty(s.fields[i].style.ty().unwrap(), sc)?.canon);
                    self.cov.insert("optional_positional");
                } else if let Some(i) = var {
                    let v = self.ty(s.fields[i].style.ty().unwrap(), sc)?.canon;
                    lists[i].push(v);
                    self.cov.insert("variadic_positional");
                } else {
                    return Err(ME::Own("too many positional"));
                }
                used += 1;
                continue;
            };
            let fits = |i: &usize| match shape {
                0 => s.fields[*i].style.flag(),
                1 => s.fields[*i].style.name_value(),
                _ => s.fields[*i].style.name_args(),
            };
            let target = named
                .iter()
                .copied()
                .find(|i| s.fields[*i].name == name && fits(i))
                .or_else(|| rest.filter(fits));
            let Some(i) = target else {
                self.cov.insert("unknown_name");
                self.hint = None;
                if !named.iter().any(|i| s.fields[*i].name == name) {
                    let h = hint(s, &name);
                    self.cov.insert(match (&h.allowed, h.must) {
                        (None, _) => "unknown_name_without_similar",
                        (_, true) => "unknown_name_with_one_similar",
                        _ => "unknown_name_with_closest",
                    });
                    self.hint = Some(h);
                }
                return Err(ME::Own("unknown name"));
            };
            named_seen = true;
            let f = &s.fields[i];
            let is_rest = f.role == Role::Rest;
            let dup = if is_rest {
                maps[i].contains_key(&name)
            } else {
                val[i].is_some()
            };
            if dup {
                self.cov.insert(if is_rest { "duplicate_rest" } else { "duplicate_named" });
                self.lenient.get_or_insert(self.events.len());
                if self.left.len() > 1 {
                    self.uncertain = true;
                }
                return Err(ME::Own("dup"));
            }
            sc.p += 1;
            if shape == 1 {
                sc.p += 1;
            }
            self.cov.insert(match (shape, is_rest) {
                (0, false) => "named_flag",
                (1, false) => "named_value",
                (2, false) => "named_args",
                (0, true) => "rest_flag",
                (1, true) => "rest_value",
                _ => "rest_args",
            });
            let v = match (&f.style, shape) {
                (Style::Bool, _) => "B1".to_string(),
                (Style::Flag, _) => format!("F@{noff}"),
                (Style::Value(t), _) => self.ty(t, sc)?.canon,
                (Style::List(t), _) => self.args(t, true, sc)?,
                (Style::Nv(_, _), 0) => format!("NV@{noff}(-)"),
                (Style::Nv(t, o), _) => {
                    let v = self.ty(t, sc)?.canon;
                    format!("NV@{noff}({}{v})", if *o { "+" } else { "" })
                }
                (Style::Na(_, _, _), 0) => format!("NA@{noff}(-)"),
                (Style::Na(t, o, l), _) => {
                    let v = self.args(t, *l, sc)?;
                    format!("NA@{noff}({}{v})", if *o { "+" } else { "" })
                }
            };
            if is_rest {
                maps[i].insert(name, v);
            } else {
                val[i] = Some(v);
            }
        }
        let mut canon = format!("S{id}{{");
        for (i, f) in s.fields.iter().enumerate() {
            let v = val[i].take();
            let c = match f.role {
                Role::Req => v.unwrap(),
                Role::Opt => v.map_or("-".into(), |v| format!("+{v}")),
                Role::Var => format!("[{}]", lists[i].join(",")),
                Role::Rest => {
                    let m: Vec<String> = maps[i].iter().map(|(k, v)| format!("{k}:{v}")).collect();
                    format!("{{{}}}", m.join(","))
                }
                Role::Named if f.opt => {
                    if v.is_none() {
                        self.cov.insert("absent_optional");
                    }
                    v.map_or("-".into(), |v| format!("+{v}"))
                }
                Role::Named => match (&f.style, v) {
                    (_, Some(v)) => v,
                    (Style::Bool, None) => "B0".into(),
                    (Style::Flag, None) => "F-".into(),
                    _ => {
                        self.cov.insert("missing_named");
                        return Err(ME::Own("missing"));
                    }
                },
            };
            canon.push_str(&c);
            canon.push(';');
        }
        canon.push('}');
        Ok(Mv {
            canon,
            ..Mv::default()
        })
    }
    fn args(&mut self, t: &Ty, list: bool, sc: &mut Sc) -> Result<String, ME> {
        let g = sc.group(Delimiter::Parenthesis).ok_or(ME::Own("paren"))?;
        sc.p += 1;
        let mut c = Sc::new(g);
        let r = if list {
            let mut v = Vec::new();
            loop {
                if c.empty() {
                    break;
                }
                v.push(self.ty(t, &mut c)?.canon);
                if c.empty() {
                    break;
                }
                c.comma()?;
            }
            format!("[{}]", v.join(","))
        } else {
            self.ty(t, &mut c)?.canon
        };
        self.leave(&c);
        Ok(r)
    }
    fn leave(&mut self, c: &Sc) {
        if !c.empty() {
            *self.left.last_mut().unwrap() = true;
        }
    }
    // ------------------------------------------------------------ Parse
    fn fields(&mut self, f: &PsFields, sc: &mut Sc) -> Result<Mv, ME> {
        let mut out = Mv::default();
        // open groups: scope, delimiter, value text collected before it
        let mut st: Vec<(Sc, Delimiter, String)> = Vec::new();
        // where they end
        let mut ends: Vec<usize> = Vec::new();
        let mut closed: Vec<Sc> = Vec::new();
        for x in &f.fields {
            for _ in x.close.chars() {
                let (c, d, before) = st.pop().unwrap();
                closed.push(c);
                wrap(&mut out, d, before);
                out.places.push(ends.pop().unwrap());
            }
            let cur: &mut Sc = match st.last_mut() {
                Some(s) => &mut s.0,
                None => sc,
            };
            let o = cur.off();
            let v = match &x.ty {
                PsTy::Ty(t) | PsTy::Boxed(t) => self.ty(t, cur)?,
                PsTy::Tok(t) => {
                    let n = tok_len(t, cur.rest()).ok_or(ME::Own("token"))?;
                    let text = flat(&cur.rest()[..n]);
                    let places = places(&cur.rest()[..n]);
                    cur.p += n;
                    Mv {
                        canon: format!("'{t}'"),
                        probes: vec![],
                        text,
                        places,
                    }
                }
                PsTy::Delim(c) => {
                    let g = cur.group(delim(*c)).ok_or(ME::Own("delimiter"))?;
                    let at = places(&cur.rest()[..1]);
                    ends.push(at[at.len() - 1]);
                    cur.p += 1;
                    self.cov.insert("group");
                    let before = std::mem::take(&mut out.text);
                    st.push((Sc::new(g), delim(*c), before));
                    Mv {
                        canon: format!("{c}@{o}"),
                        places: vec![o],
                        ..Mv::default()
                    }
                }
                PsTy::MacroDelim(_) => {
                    let (c, g) = ['(', '[', '{']
                        .iter()
                        .find_map(|c| cur.group(delim(*c)).map(|g| (*c, g)))
                        .ok_or(ME::Own("delimiter"))?;
                    let at = places(&cur.rest()[..1]);
                    ends.push(at[at.len() - 1]);
                    cur.p += 1;
                    self.cov.insert("macro_group");
                    let before = std::mem::take(&mut out.text);
                    st.push((Sc::new(g), delim(c), before));
                    Mv {
                        canon: format!("D{c}@{o}"),
                        places: vec![o],
                        ..Mv::default()
                    }
                }
                PsTy::AnyIdent => ident_any(cur)?,
                PsTy::Punct(t, sep) => self.terminated(cur, sep, |m, c| m.ty(t, c))?,
                PsTy::PunctAny(sep) => self.terminated(cur, sep, |_, c| ident_any(c))?,
            };
            out.push("", v);
            out.canon.push(';');
        }
        while let Some((c, d, before)) = st.pop() {
            closed.push(c);
            wrap(&mut out, d, before);
            out.places.push(ends.pop().unwrap());
        }
        for c in &closed {
            self.leave(c);
        }
        Ok(out)
    }
    fn terminated(
        &mut self,
        c: &mut Sc,
        sep: &str,
        mut f: impl FnMut(&mut Self, &mut Sc) -> Result<Mv, ME>,
    ) -> Result<Mv, ME> {
        let mut out = Mv {
            canon: "[".into(),
            ..Mv::default()
        };
        loop {
            if c.empty() {
                break;
            }
            let v = f(self, c)?;
            out.push("", v);
            if c.empty() {
                break;
            }
            let n = tok_len(sep, c.rest()).ok_or(ME::Own("separator"))?;
            out.canon.push(',');
            out.add_text(&flat(&c.rest()[..n]));
            out.places.extend(places(&c.rest()[..n]));
            c.p += n;
        }
        out.canon.push(']');
        Ok(out)
    }
    fn en(&mut self, id: usize, vs: &[(String, PsFields)], sc: &mut Sc) -> Result<Mv, ME> {
        let mut forked = false;
        for (i, (name, f)) in vs.iter().enumerate() {
            let peeks: Vec<&PsField> = f.fields.iter().filter(|x| x.peek).collect();
            if !peeks.is_empty() {
                let ok = peeks.iter().enumerate().all(|(k, p)| self.peek(p, sc, k));
                if ok {
                    self.cov.insert("peek_commit");
                    let r = self.fields(f, sc);
                    if r.is_err() {
                        self.cov.insert("error_after_commit");
                    }
                    let mut v = r?;
                    v.canon = format!("S{id}.{name}({})", v.canon);
                    return Ok(v);
                }
                continue;
            }
            if i + 1 == vs.len() && !forked {
                let mut v = self.fields(f, sc)?;
                v.canon = format!("S{id}.{name}({})", v.canon);
                return Ok(v);
            }
            forked = true;
            let p = sc.p;
            self.left.push(false);
            let calls = self.events.len();
            let r = self.fields(f, sc);
            let left = self.left.pop().unwrap();
            match r {
                Ok(mut v) => {
                    if left {
                        self.cov.insert("leftover_in_kept_alternative");
                        *self.left.last_mut().unwrap() = true;
                    }
                    self.cov.insert("alternative_kept");
                    v.canon = format!("S{id}.{name}({})", v.canon);
                    return Ok(v);
                }
                Err(ME::Panic(i)) => return Err(ME::Panic(i)),
                Err(_) => {
                    if sc.p > p {
                        self.cov.insert("alternative_rolled_back_after_consuming");
                    }
                    if left {
                        self.cov.insert("leftover_in_discarded_alternative");
                    }
                    if self.events.len() > calls {
                        self.cov.insert("alternative_rolled_back");
                    }
                    if self.left.len() > 1 {
                        self.cov.insert("nested_rollback");
                    }
                    sc.p = p;
                }
            }
        }
        self.cov.insert("no_alternative");
        Err(if forked { ME::Any } else { ME::Own("no variant") })
    }
    fn peek(&mut self, f: &PsField, sc: &Sc, skip: usize) -> bool {
        let mut t = sc.rest();
        for _ in 0..skip {
            // a lifetime is one token here
            let n = match t {
                [TokenTree::Punct(p), TokenTree::Ident(_), ..]
                    if p.as_char() == '\'' && p.spacing() == Spacing::Joint =>
                {
                    2
                }
                _ => 1,
            };
            t = t.get(n..).unwrap_or(&[]);
        }
        if t.is_empty() {
            return false;
        }
        match &f.ty {
            PsTy::Ty(Ty::Leaf(k)) if k.is_probe() => {
                let o = off(&t[0]);
                let flip = o != 0 && self.op.is_some_and(|op| op.flips.contains(&o));
                if flip {
                    self.disturbed = true;
                }
                normal(*k, t).is_some() != flip
            }
            PsTy::Ty(Ty::Leaf(k)) => real_leaf(*k, t).is_ok(),
            PsTy::Tok(s) => tok_len(s, t).is_some(),
            PsTy::AnyIdent => matches!(t[0], TokenTree::Ident(_)),
            PsTy::Delim(c) => matches!(&t[0], TokenTree::Group(g) if g.delimiter() == delim(*c)),
            _ => unreachable!("not peekable"),
        }
    }
}
fn wrap(out: &mut Mv, d: Delimiter, before: String) {
    let c = match d {
        Delimiter::Parenthesis => '(',
        Delimiter::Bracket => '[',
        _ => '{',
    };
    let inner = std::mem::replace(&mut out.text, before);
    let g = if inner.is_empty() {
        format!("{c} {}", close(c))
    } else {
        format!("{c} {inner} {}", close(c))
    };
    out.add_text(&g);
}
fn ident_any(c: &mut Sc) -> Result<Mv, ME> {
    match c.rest().first() {
        Some(TokenTree::Ident(i)) => {
            let text = i.to_string();
            let canon = format!("Ident\"{text}\"@{}", c.off());
            let places = vec![c.off()];
            c.p += 1;
            Ok(Mv {
                canon,
                probes: vec![],
                text,
                places,
            })
        }
        _ => Err(ME::Own("ident")),
    }
}
/// how the real type prints what it read
fn reprint(k: Leaf, t: &[TokenTree]) -> (String, Vec<usize>) {
    let ts: TokenStream = t.iter().cloned().collect();
    let r = match k {
        Leaf::RInt => syn::parse2::<syn::LitInt>(ts).map(|x| x.to_token_stream()),
        Leaf::RStr => syn::parse2::<syn::LitStr>(ts).map(|x| x.to_token_stream()),
        Leaf::RExpr => syn::parse2::<syn::Expr>(ts).map(|x| x.to_token_stream()),
        Leaf::RBool => syn::parse2::<syn::LitBool>(ts).map(|x| x.to_token_stream()),
        Leaf::RIdent => syn::parse2::<syn::Ident>(ts).map(|x| x.to_token_stream()),
        Leaf::RType => syn::parse2::<syn::Type>(ts).map(|x| x.to_token_stream()),
        _ => unreachable!(),
    };
    r.map(|x| (crate::grammar::flat_ts(&x), crate::grammar::places_ts(&x))).unwrap_or_else(|_| (flat(t), places(t)))
}
