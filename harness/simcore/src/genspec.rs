//! Seeded generator of programs: structs and enums deriving StructMeta,
//! Parse and ToTokens.
use crate::ir::*;
use crate::rng::Rng;

/// field and parameter names: look-alikes, keywords, unicode, names used by
/// macro-generated code
pub const NAMES: &[&str] = &[
    "a", "b", "ab", "ba", "abc", "abd", "x", "xy", "value", "values", "name", "names", "input",
    "span", "index", "content", "fork", "is_next", "named_used", "unnamed_index", "tokens",
    "r#type", "r#fn", "r#match", "r#in", "r#struct", "名前", "été", "Upper", "camelCase", "X",
    "a_rather_long_parameter_name_with_many_parts", "_u", "__x", "_value_0", "v1", "v2", "skip",
    "rename", "default", "rest", "flag", "args", "kind", "ident", "Flag", "self_",
];
pub const TYPE_NAMES: &[&str] = &[
    "Args", "Opts", "Item", "Meta", "Config", "Attr", "Node", "Inner", "Spec_", "T1",
];
pub const VARIANTS: &[&str] = &["A", "B", "C", "Lit", "Pair", "Call", "Rest", "Empty", "Ok_", "名"];
pub const TOKS: &[&str] = &[
    ",", ";", "=", "=>", "->", ":", "::", "fn", "struct", "+", "-", "?", "<", "|", "in",
];

struct G<'a> {
    r: Rng,
    base: usize,
    specs: &'a mut Vec<Spec>,
    /// in an enum
    en: bool,
    /// groups nested in each other
    last_open: char,
    most_open: usize,
    most_fields: usize,
}
/// the `n` definitions of pool `pool`; ids are global
pub fn gen_pool(seed: u64, pool: usize, n: usize) -> Vec<Spec> {
    let mut specs: Vec<Spec> = Vec::new();
    for k in 0..n {
        let mut g = G {
            r: Rng::sub(seed, 0x5EC0 + pool as u64, k as u64),
            base: pool * n,
            specs: &mut specs,
            en: false,
            last_open: '(',
            most_open: 3,
            most_fields: 9,
        };
        let s = g.spec(pool * n + k);
        specs.push(s);
    }
    specs
}
pub fn gen_all(seed: u64, pools: usize, n: usize) -> Vec<Spec> {
    (0..pools).flat_map(|p| gen_pool(seed, p, n)).collect()
}
impl G<'_> {
    fn get(&self, id: usize) -> &Spec {
        &self.specs[id - self.base]
    }
    fn spec(&mut self, id: usize) -> Spec {
        if self.specs.len() > 4 && self.r.pct(16) {
            let k = self.r.below(self.specs.len());
            if let Some(s) = self.cousin(id, k) {
                return s;
            }
        }
        let generic = self.r.pct(12).then(|| {
            *self
                .r
                .pick(&[Leaf::PInt, Leaf::PStr, Leaf::PId, Leaf::PRest, Leaf::RInt])
        });
        let kind = self.r.weighted(&[50, 18, 32]);
        let (body, generic) = match kind {
            0 => (Body::Sm(self.sm(id, generic)), generic),
            1 => {
                let f = self.ps_fields(id, 6, true, generic);
                (Body::Ps(PsSpec::Struct(f)), generic)
            }
            _ => (Body::Ps(PsSpec::Enum(self.en(id, generic))), generic),
        };
        let mut s = Spec {
            id,
            name: self.r.pick(TYPE_NAMES).to_string(),
            body,
            generic,
            parse_only: false,
            kin: None,
        };
        self.seal(&mut s);
        s
    }
    fn seal(&mut self, s: &mut Spec) {
        let id = s.id;
        s.parse_only = !s.is_sm()
            && s.tys().iter().any(|t| match t {
                Ty::Sub(i) if *i != id => self.get(*i).is_sm() || self.get(*i).parse_only,
                _ => false,
            });
        if s.generic.is_some() && !s.tys().iter().any(|t| matches!(t, Ty::Gen(_))) {
            s.generic = None;
        }
    }
    /// the same definition with one detail changed
    fn cousin(&mut self, id: usize, k: usize) -> Option<Spec> {
        let old = &self.specs[k];
        let from = old.id;
        let mut s = Spec {
            id,
            kin: Some(from),
            ..old.clone()
        };
        let own = |t: &mut Ty| {
            if *t == Ty::Sub(from) {
                *t = Ty::Sub(id);
            }
        };
        match &mut s.body {
            Body::Sm(b) => {
                b.fields.iter_mut().for_each(|f| {
                    f.style.ty_mut().map(own);
                });
                self.vary_sm(b)?;
            }
            Body::Ps(b) => {
                let mut v: Vec<&mut PsFields> = match b {
                    PsSpec::Struct(f) => vec![f],
                    PsSpec::Enum(v) => v.iter_mut().map(|x| &mut x.1).collect(),
                };
                for f in v.iter_mut().flat_map(|f| f.fields.iter_mut()) {
                    if let PsTy::Ty(t) | PsTy::Boxed(t) | PsTy::Punct(t, _) = &mut f.ty {
                        own(t);
                    }
                }
                let n = v.len();
                if n > 1 && self.r.pct(40) {
                    let PsSpec::Enum(v) = b else { unreachable!() };
                    let (i, j) = (self.r.below(n), self.r.below(n));
                    match self.r.below(3) {
                        0 if i != j => v.swap(i, j),
                        1 => {
                            v.remove(i);
                        }
                        _ if i != j => {
                            // the names change places
                            let x = v[i].0.clone();
                            v[i].0 = std::mem::replace(&mut v[j].0, x);
                        }
                        _ => return None,
                    }
                } else if n == 0 {
                    return None;
                } else {
                    let f = &mut v[self.r.below(n)];
                    self.vary_ps(f)?;
                }
            }
        }
        self.seal(&mut s);
        Some(s)
    }
    fn vary_sm(&mut self, b: &mut SmSpec) -> Option<()> {
        let named: Vec<usize> = (0..b.fields.len())
            .filter(|i| b.fields[*i].role == Role::Named)
            .collect();
        if self.r.pct(12) {
            b.snake = !b.snake;
            return Some(());
        }
        if named.is_empty() || self.r.pct(20) {
            // another element type
            let leaves: Vec<usize> = (0..b.fields.len())
                .filter(|i| matches!(b.fields[*i].style.ty(), Some(Ty::Leaf(_))))
                .collect();
            if leaves.is_empty() {
                return None;
            }
            let k = *self.r.pick(&leaves);
            let l = self.leaf(b.fields[k].role != Role::Named);
            *b.fields[k].style.ty_mut().unwrap() = Ty::Leaf(l);
            return Some(());
        }
        let k = *self.r.pick(&named);
        match self.r.below(5) {
            0 | 1 => {
                // another name
                let n = *self.r.pick(NAMES);
                let mut n = n.strip_prefix("r#").unwrap_or(n).to_string();
                if self.r.pct(50) && b.fields[k].name.is_ascii() && b.fields[k].name.len() > 1 {
                    // as long, and differing in one place only
                    let mut c: Vec<char> = b.fields[k].name.chars().collect();
                    let i = self.r.range(1, c.len() - 1);
                    c[i] = *self.r.pick(&['a', 'b', 'x', 'o', '_', '2', 'L']);
                    n = c.into_iter().collect();
                }
                if b.fields.iter().any(|f| f.name == n) || syn::parse_str::<syn::Ident>(&n).is_err() {
                    return None;
                }
                b.fields[k].name_attr = Some(n.clone());
                b.fields[k].name = n;
            }
            2 => {
                if matches!(b.fields[k].style, Style::Bool | Style::Flag) {
                    return None;
                }
                b.fields[k].opt = !b.fields[k].opt;
            }
            3 => {
                // two parameters exchange their positions
                let j = *self.r.pick(&named);
                b.fields.swap(k, j);
            }
            _ => {
                let f = &mut b.fields[k];
                f.style = match &f.style {
                    Style::Bool => Style::Flag,
                    Style::Flag => Style::Bool,
                    Style::Value(t) => Style::Nv(t.clone(), self.r.pct(50)),
                    Style::Nv(t, true) => Style::Nv(t.clone(), false),
                    Style::Nv(t, false) => Style::Value(t.clone()),
                    Style::List(t) => Style::Na(t.clone(), self.r.pct(50), true),
                    Style::Na(t, o, l) if t.sub() || self.r.pct(50) => Style::Na(t.clone(), !*o, *l),
                    Style::Na(t, o, l) => Style::Na(t.clone(), *o, !*l),
                };
            }
        }
        Some(())
    }
    fn vary_ps(&mut self, f: &mut PsFields) -> Option<()> {
        if f.fields.is_empty() {
            return None;
        }
        let n = f.fields.len();
        let k = self.r.below(n);
        let peeked = f.fields.iter().filter(|x| x.peek).count();
        match self.r.below(5) {
            0 => {
                // other delimiters
                let PsTy::Delim(c) = f.fields[k].ty else { return None };
                let new = *self.r.pick(&['(', '[', '{']);
                if new == c {
                    return None;
                }
                f.fields[k].ty = PsTy::Delim(new);
                // its closing mark
                let mut st = vec![];
                let mut open = false;
                for x in f.fields.iter_mut().skip(k) {
                    let mut m: Vec<char> = x.close.chars().collect();
                    for c in m.iter_mut() {
                        if st.len() == 1 {
                            *c = if new == '(' { ')' } else if new == '[' { ']' } else { '}' };
                        }
                        st.pop();
                        if st.is_empty() {
                            break;
                        }
                    }
                    x.close = m.into_iter().collect();
                    if open && st.is_empty() {
                        break;
                    }
                    open = true;
                    if matches!(x.ty, PsTy::Delim(_) | PsTy::MacroDelim(_)) {
                        st.push(());
                    }
                }
            }
            1 => {
                let i = self.r.below(4);
                f.fields.iter_mut().for_each(|x| x.peek = false);
                if i == peeked {
                    return None;
                }
                mark_peeks(f, i);
            }
            2 => f.shape = if f.shape == Shape::Tuple { Shape::Record } else { Shape::Tuple },
            _ => {
                match &f.fields[k].ty {
                    PsTy::Ty(Ty::Leaf(l)) if *l != Leaf::PAll => {
                        let l = self.leaf(true);
                        if l == Leaf::PAll {
                            return None;
                        }
                        f.fields[k].ty = PsTy::Ty(Ty::Leaf(l));
                    }
                    PsTy::Tok(_) => f.fields[k].ty = PsTy::Tok(self.r.pick(TOKS)),
                    _ => return None,
                }
                f.fields.iter_mut().for_each(|x| x.peek = false);
                mark_peeks(f, peeked);
            }
        }
        self.name_fields(f);
        Some(())
    }
    fn leaf(&mut self, positional: bool) -> Leaf {
        use Leaf::*;
        let v = [
            PInt, PStr, PId, PRest, PTwo, PPair, PNil, PGrp, PAll, PExpr, RInt, RStr, RExpr, RBool,
            RIdent, RType,
        ];
        let w: [usize; 16] = if positional {
            [24, 10, 10, 6, 6, 6, 3, 6, 1, 8, 4, 4, 4, 2, 3, 2]
        } else {
            [20, 8, 10, 12, 6, 5, 4, 5, 1, 10, 4, 4, 4, 2, 3, 2]
        };
        v[self.r.weighted(&w)]
    }
    fn sub(&mut self, f: impl Fn(&Spec) -> bool) -> Option<usize> {
        let c: Vec<usize> = self
            .specs
            .iter()
            .filter(|s| f(s) && depth(s, self.specs, self.base) < 3)
            .map(|s| s.id)
            .collect();
        (!c.is_empty()).then(|| *self.r.pick(&c))
    }
    fn val_ty(&mut self, generic: Option<Leaf>, positional: bool) -> Ty {
        if let Some(l) = generic {
            if self.r.pct(45) {
                return Ty::Gen(l);
            }
        }
        if self.r.pct(12) {
            if let Some(i) = self.sub(|s| !s.is_sm()) {
                return Ty::Sub(i);
            }
        }
        Ty::Leaf(self.leaf(positional))
    }
    fn args_ty(&mut self, generic: Option<Leaf>) -> Ty {
        if self.r.pct(35) {
            if let Some(i) = self.sub(|_| true) {
                return Ty::Sub(i);
            }
        }
        self.val_ty(generic, true)
    }
    fn sm(&mut self, id: usize, generic: Option<Leaf>) -> SmSpec {
        let shape = [Shape::Record, Shape::Tuple, Shape::Unit][self.r.weighted(&[74, 23, 3])];
        let snake = self.r.pct(18);
        if shape == Shape::Unit {
            return SmSpec {
                shape,
                fields: vec![],
                snake,
            };
        }
        let pos = self.r.pct(62);
        let (nreq, nopt, nvar) = if pos && self.r.pct(6) {
            // many
            let most = if self.r.pct(30) { 20 } else { 8 };
            (self.r.below(most), self.r.below(most), self.r.weighted(&[65, 35]))
        } else if pos {
            (
                self.r.weighted(&[40, 30, 20, 10]),
                self.r.weighted(&[55, 25, 20]),
                self.r.weighted(&[65, 35]),
            )
        } else {
            (0, 0, 0)
        };
        let mut nnamed = self.r.weighted(&[10, 14, 18, 18, 16, 12, 6, 6]);
        if shape == Shape::Tuple {
            nnamed /= 2;
        } else if self.r.pct(5) {
            // many
            nnamed = self.r.range(8, 20);
        }
        let mut bulk = None;
        if shape == Shape::Record && self.r.pct(2) {
            // very many, mostly of one style
            nnamed = self.r.range(30, 72);
            bulk = Some(match self.r.below(4) {
                0 => Style::Bool,
                1 => Style::Flag,
                2 => Style::Value(Ty::Leaf(Leaf::PInt)),
                _ => Style::List(Ty::Leaf(Leaf::PInt)),
            });
        }
        let nrest = self.r.weighted(&[70, 30]);
        let mut roles = Vec::new();
        roles.extend(vec![Role::Named; nnamed]);
        roles.extend(vec![Role::Rest; nrest]);
        self.r.shuffle(&mut roles);
        // positional ones keep their relative order
        let mut unnamed = vec![Role::Req; nreq];
        unnamed.extend(vec![Role::Opt; nopt]);
        unnamed.extend(vec![Role::Var; nvar]);
        if self.r.pct(30) {
            roles.splice(0..0, unnamed);
        } else {
            let mut at: Vec<usize> = (0..unnamed.len()).map(|_| self.r.below(roles.len() + 1)).collect();
            at.sort();
            for (k, r) in at.into_iter().zip(unnamed).rev() {
                roles.insert(k, r);
            }
        }
        let mut idents: Vec<&str> = NAMES.to_vec();
        self.r.shuffle(&mut idents);
        // few names per struct: prefer look-alikes
        if self.r.pct(40) {
            idents.sort_by_key(|s| s.len() > 3);
        }
        let mut names: Vec<String> = Vec::new();
        let mut fields = Vec::new();
        for (k, role) in roles.into_iter().enumerate() {
            let ident = (shape == Shape::Record).then(|| match idents.get(k) {
                Some(n) => numbered(&mut self.r, n, k),
                None => format!("n{k}"),
            });
            let mut name_attr = None;
            let mut name = String::new();
            let mut unnamed_attr = false;
            let mut opt = false;
            let style = match role {
                Role::Req | Role::Opt | Role::Var => {
                    unnamed_attr = shape == Shape::Record;
                    Style::Value(self.val_ty(generic, true))
                }
                Role::Named => {
                    if shape == Shape::Tuple || self.r.pct(22) {
                        let n = *self.r.pick(NAMES);
                        let n = n.strip_prefix("r#").unwrap_or(n);
                        let kin = if names.is_empty() || self.r.pct(65) { None } else { near(&mut self.r, &names) };
                        name_attr = Some(match self.r.below(12) {
                            _ if kin.is_some() => kin.unwrap(),
                            0 => "self".to_string(),
                            1 => "crate".to_string(),
                            2 => format!("r#{}", if n == "self_" { "x" } else { "type" }),
                            3 => format!("{n}2"),
                            _ => n.to_string(),
                        });
                    }
                    name = match (&name_attr, &ident) {
                        (Some(n), _) => n.clone(),
                        (None, Some(i)) => i.strip_prefix("r#").unwrap_or(i).to_string(),
                        _ => unreachable!(),
                    };
                    opt = self.r.pct(45);
                    let st = match &bulk {
                        Some(st) if self.r.pct(92) => st.clone(),
                        _ => self.style(id, generic, opt),
                    };
                    if matches!(st, Style::Bool | Style::Flag) {
                        opt = false;
                    }
                    st
                }
                Role::Rest => self.rest_style(generic),
            };
            if role == Role::Named {
                if names.contains(&name) {
                    continue;
                }
                // a field name chosen later must not collide either
                names.push(name.clone());
            }
            fields.push(SmField {
                ident,
                role,
                style,
                opt,
                name,
                name_attr,
                unnamed_attr,
                spell: if self.r.pct(70) { 0 } else { self.r.below(396) },
            });
        }
        SmSpec {
            shape,
            fields,
            snake,
        }
    }
    fn style(&mut self, id: usize, generic: Option<Leaf>, opt: bool) -> Style {
        let w = if opt {
            [0, 0, 34, 20, 18, 28]
        } else {
            [12, 12, 26, 16, 15, 19]
        };
        match self.r.weighted(&w) {
            0 => Style::Bool,
            1 => Style::Flag,
            2 => Style::Value(self.val_ty(generic, false)),
            3 => {
                if opt && self.r.pct(20) && generic.is_none() {
                    return Style::List(Ty::Sub(id));
                }
                Style::List(self.args_ty(generic))
            }
            4 => Style::Nv(self.val_ty(generic, false), self.r.pct(50)),
            _ => {
                if opt && self.r.pct(15) && generic.is_none() {
                    let flag = self.r.pct(50);
                    return Style::Na(Ty::Sub(id), flag, true);
                }
                Style::Na(self.args_ty(generic), self.r.pct(45), self.r.pct(40))
            }
        }
    }
    fn rest_style(&mut self, generic: Option<Leaf>) -> Style {
        match self.r.weighted(&[35, 20, 20, 25]) {
            0 => Style::Value(self.val_ty(generic, false)),
            1 => Style::List(self.args_ty(generic)),
            2 => Style::Nv(self.val_ty(generic, false), self.r.pct(60)),
            _ => Style::Na(self.args_ty(generic), self.r.pct(60), self.r.pct(40)),
        }
    }
    // ------------------------------------------------------------ Parse/ToTokens
    fn ps_leaf(&mut self, generic: Option<Leaf>) -> PsTy {
        if let Some(l) = generic {
            if self.r.pct(35) {
                return PsTy::Ty(Ty::Gen(l));
            }
        }
        match self.r.weighted(&[58, 22, 8, 12, 3]) {
            4 => PsTy::Boxed(Ty::Leaf(self.leaf(true))),
            0 => PsTy::Ty(Ty::Leaf(self.leaf(true))),
            1 => PsTy::Tok(self.r.pick(TOKS)),
            2 => PsTy::AnyIdent,
            _ => match self.sub(|s| !s.is_sm() || matches!(&s.body, Body::Sm(_))) {
                Some(i) if !self.get(i).is_sm() => PsTy::Ty(Ty::Sub(i)),
                _ => PsTy::Ty(Ty::Leaf(self.leaf(true))),
            },
        }
    }
    fn last_leaf(&mut self, id: usize, depth: usize, generic: Option<Leaf>) -> Option<PsTy> {
        let sep = if self.r.pct(70) {
            ","
        } else {
            self.r.pick(&[";", "+", "::", "=>", "|", "->"])
        };
        match self.r.below(100) {
            0..14 => Some(PsTy::Punct(self.args_ty(generic), sep)),
            14..18 => Some(PsTy::PunctAny(sep)),
            18..22 if depth > 0 && generic.is_none() => Some(PsTy::Punct(Ty::Sub(id), sep)),
            22..26 => Some(PsTy::Ty(Ty::Leaf(Leaf::PAll))),
            26..31 => self.sub(|s| s.is_sm()).map(|i| PsTy::Ty(Ty::Sub(i))),
            _ => None,
        }
    }
    fn seq(
        &mut self,
        id: usize,
        depth: usize,
        max: usize,
        pend: &mut String,
        out: &mut Vec<PsField>,
        generic: Option<Leaf>,
        groups: bool,
    ) {
        let n = self.r.range(if depth == 0 { 1 } else { 0 }, max);
        for i in 0..n {
            if out.len() > self.most_fields {
                break;
            }
            let open = if self.most_open > 3 && i == 0 {
                80
            } else if depth == 0 {
                32
            } else {
                22
            };
            if groups && depth < self.most_open && self.r.pct(open) {
                let mut c = *self.r.pick(&['(', '[', '{']);
                if self.most_open > 3 && depth > 0 && self.r.pct(60) {
                    c = self.last_open;
                }
                self.last_open = c;
                let ty = if self.r.pct(28) {
                    PsTy::MacroDelim(c)
                } else {
                    PsTy::Delim(c)
                };
                out.push(PsField {
                    ident: None,
                    close: std::mem::take(pend),
                    ty,
                    peek: false,
                    spell: self.r.below(8),
                });
                self.seq(id, depth + 1, 3, pend, out, generic, groups);
                pend.push(match c {
                    '(' => ')',
                    '[' => ']',
                    _ => '}',
                });
                continue;
            }
            let last = if i + 1 == n {
                self.last_leaf(id, depth, generic)
            } else {
                None
            };
            let me = depth > 0 && self.en && generic.is_none() && self.r.pct(8);
            let ty = match last {
                _ if me => PsTy::Boxed(Ty::Sub(id)),
                Some(t) => t,
                None => self.ps_leaf(generic),
            };
            out.push(PsField {
                ident: None,
                close: std::mem::take(pend),
                ty,
                peek: false,
                spell: self.r.below(8),
            });
        }
    }
    fn ps_fields(&mut self, id: usize, max: usize, groups: bool, generic: Option<Leaf>) -> PsFields {
        let mut fields = Vec::new();
        let mut pend = String::new();
        self.most_open = if self.r.pct(9) { 7 } else { 3 };
        let wide = self.r.pct(6);
        let groups = groups && !(wide && self.r.pct(50));
        self.most_fields = if wide { 24 } else { 9 };
        let max = if wide { 22 } else { max };
        self.seq(id, 0, max, &mut pend, &mut fields, generic, groups);
        let shape = if self.r.pct(50) { Shape::Record } else { Shape::Tuple };
        let mut f = PsFields { shape, fields };
        self.name_fields(&mut f);
        f
    }
    fn name_fields(&mut self, f: &mut PsFields) {
        if f.shape == Shape::Record {
            let mut idents: Vec<&str> = NAMES.to_vec();
            self.r.shuffle(&mut idents);
            for (k, x) in f.fields.iter_mut().enumerate() {
                x.ident = Some(numbered(&mut self.r, idents[k], k));
            }
        } else {
            f.fields.iter_mut().for_each(|x| x.ident = None);
        }
    }
    fn en(&mut self, id: usize, generic: Option<Leaf>) -> Vec<(String, PsFields)> {
        self.en = true;
        let mut n = self.r.weighted(&[1, 8, 26, 31, 21, 10, 1, 1, 1, 1, 1]);
        let mut names: Vec<&str> = VARIANTS.to_vec();
        self.r.shuffle(&mut names);
        if self.r.pct(2) {
            n = self.r.range(9, 19);
            names.extend(["V10", "V11", "V12", "V2", "V3", "V4", "V5", "V1", "V0"]);
        }
        let mut v: Vec<(String, PsFields)> = Vec::new();
        let style = self.r.weighted(&[40, 20, 40]); // speculative, peeked, mixed
        for (i, name) in names.iter().take(n).enumerate() {
            let empty = if i + 1 == n { 6 } else { 2 };
            let mut f = if self.r.pct(empty) {
                PsFields {
                    shape: Shape::Unit,
                    fields: vec![],
                }
            } else if !v.is_empty() && self.r.pct(55) {
                let k = self.r.below(v.len());
                let mut f = v[k].1.clone();
                self.vary(&mut f, generic);
                f
            } else {
                let groups = self.r.pct(45);
                self.ps_fields(id, 4, groups, generic)
            };
            let p = match style {
                0 => 0,
                1 => 95,
                _ => 50,
            };
            f.fields.iter_mut().for_each(|x| x.peek = false);
            if self.r.pct(p) {
                let k = 1 + self.r.weighted(&[50, 30, 20]);
                if self.r.pct(35) {
                    // a plain leading field becomes any identifier
                    let i = self.r.below(k);
                    if let Some(x) = f.fields.get_mut(i)
                        && matches!(x.ty, PsTy::Ty(Ty::Leaf(l)) if l != Leaf::PAll)
                    {
                        x.ty = if self.r.pct(60) {
                            PsTy::AnyIdent
                        } else {
                            PsTy::Ty(Ty::Leaf(Leaf::RIdent))
                        };
                    }
                }
                mark_peeks(&mut f, k);
            }
            v.push((name.to_string(), f));
        }
        v
    }
    /// change the end of a variant so that it fails later than its sibling
    fn vary(&mut self, f: &mut PsFields, generic: Option<Leaf>) {
        let open = matches!(f.fields.last().map(|x| &x.ty), Some(PsTy::Delim(_) | PsTy::MacroDelim(_)) | None);
        let greedy = matches!(
            f.fields.last().map(|x| &x.ty),
            Some(PsTy::Punct(..) | PsTy::PunctAny(_) | PsTy::Ty(Ty::Leaf(Leaf::PAll)))
        );
        let marks = |x: &PsField| !x.close.is_empty() || matches!(x.ty, PsTy::Delim(_) | PsTy::MacroDelim(_));
        if f.shape != Shape::Unit && self.r.pct(18) {
            // the same fields in another order, or the very same
            if self.r.pct(75) && !f.fields.iter().any(marks) {
                let k = f.fields.len() - greedy as usize;
                self.r.shuffle(&mut f.fields[..k]);
            }
            return;
        }
        match self.r.below(3) {
            0 if !open => {
                let k = f.fields.len() - 1;
                f.fields[k].ty = self.ps_leaf(generic);
            }
            1 if f.fields.len() > 1 && !open => {
                f.fields.pop();
            }
            _ => {
                if !greedy && f.shape != Shape::Unit {
                    let ty = self.ps_leaf(generic);
                    f.fields.push(PsField {
                        ident: None,
                        close: String::new(),
                        ty,
                        peek: false,
                        spell: self.r.below(8),
                    });
                }
            }
        }
        if f.shape == Shape::Unit {
            return;
        }
        f.shape = if self.r.pct(50) { Shape::Record } else { Shape::Tuple };
        self.name_fields(f);
    }
}
/// sometimes a name like the ones macro-generated code numbers its own with
fn numbered(r: &mut Rng, name: &str, k: usize) -> String {
    if r.pct(96) {
        return name.to_string();
    }
    let p = r.pick(&["value_", "_value_", "field_", "arg", "__f", "x_", "self_"]);
    let n = format!("{p}{k}");
    if NAMES.contains(&n.as_str()) {
        return name.to_string();
    }
    n
}
pub fn mark_peeks(f: &mut PsFields, k: usize) {
    let mut depth = 0usize;
    let mut n = 0;
    for x in &mut f.fields {
        depth -= x.close.len();
        let root = depth == 0;
        let opener = matches!(x.ty, PsTy::Delim(_) | PsTy::MacroDelim(_));
        if root {
            let ok = match &x.ty {
                PsTy::Ty(Ty::Leaf(l)) => l.peekable(),
                PsTy::Tok(_) | PsTy::AnyIdent | PsTy::Delim(_) => true,
                _ => false,
            };
            if !ok || n == k {
                return;
            }
            x.peek = true;
            n += 1;
        }
        if opener {
            depth += 1;
        }
    }
}
fn depth(s: &Spec, all: &[Spec], base: usize) -> usize {
    s.tys()
        .iter()
        .filter_map(|t| match t {
            Ty::Sub(i) if *i != s.id => Some(1 + depth(&all[*i - base], all, base)),
            _ => None,
        })
        .max()
        .unwrap_or(0)
}
/// a name that differs in a few places from one of these
fn near(r: &mut Rng, names: &[String]) -> Option<String> {
    let mut n: Vec<char> = r.pick(names).chars().collect();
    for _ in 0..1 + r.below(2) {
        let l = n.len();
        let i = r.below(l);
        match r.below(4) {
            0 | 1 if l > 1 => {
                let i = r.below(l - 1);
                n.swap(i, i + 1);
            }
            2 if l > 1 => {
                n.remove(i);
            }
            3 => n.insert(i, *r.pick(&['a', 'b', 'n', 's', '_', '2'])),
            _ => n[i] = *r.pick(&['a', 'b', 'n', 's', '_', 'A']),
        }
    }
    let n: String = n.into_iter().collect();
    crate::input::is_name(&n).then_some(n)
}
