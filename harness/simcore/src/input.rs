//! Seeded generator of argument streams and of what the channel does to them.
use crate::genspec::NAMES;
use crate::ir::*;
use crate::rng::Rng;
use proc_macro2::TokenStream;

/// atomic pieces; groups are bracket pieces around their content
pub type Pieces = Vec<String>;

/// values of generated types in one stream
const MOST: usize = 100;
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub specs: &'a [Spec],
    pub n: usize,
    pub depth: usize,
    /// percentage of argument lists the channel damages at argument level
    pub chan_pct: usize,
    pub chan: Vec<String>,
    /// one list of this many elements is still to be made
    pub many: usize,
    /// nesting is cut off below this level
    pub deep: usize,
    /// values of generated types written so far
    pub made: usize,
    /// percent of argument damages that hit a character of a name
    pub typo: usize,
    /// percent of argument damages that change an argument's style
    pub restyle: usize,
}
fn s(x: &str) -> String {
    x.to_string()
}
pub fn close_of(c: &str) -> &'static str {
    match c {
        "(" => ")",
        "[" => "]",
        _ => "}",
    }
}
impl Gen<'_> {
    fn num(&mut self) -> String {
        self.n += 1;
        format!("{}", self.n + 100)
    }
    fn strlit(&mut self) -> String {
        self.n += 1;
        format!("\"s{}\"", self.n)
    }
    fn ident(&mut self) -> String {
        s(self.r.pick(NAMES))
    }
    fn noise(&mut self, comma: bool) -> Pieces {
        match self.r.below(if comma { 19 } else { 17 }) {
            0 => vec![self.num()],
            1 => vec![self.ident()],
            2 => vec![self.strlit()],
            3 => vec![s("-"), self.num()],
            4 => vec![s("!"), self.ident()],
            5 => {
                let a = self.num();
                vec![s("("), a, s(","), self.num(), s(")")]
            }
            6 => vec![s("["), self.num(), s("]")],
            7 => vec![s(self.r.pick(&["&", "*", "<", ">", "+", "|", "?", "#", "$", ".", ":"]))],
            8 => vec![s("=")],
            9 => vec![s("="), s(">")],
            10 => vec![s(self.r.pick(&["(", "[", "{"]))]
                .into_iter()
                .flat_map(|c| [c.clone(), s(close_of(&c))])
                .collect(),
            11 => vec![s("{"), self.ident(), s("}")],
            12 | 13 => vec![s(";")],
            14 => vec![s(self.r.pick(&["@", "~", "^", "%", "!", "-", "::", "->", "..", "&&", "=="]))],
            15 => vec![s(self.r.pick(&[
                "'c'", "1.5", "b\"b\"", "r\"raw\"", "'life", "0x1f", "true", "_", "b'x'",
            ]))],
            16 => vec![s(self.r.pick(&[
                "struct", "as", "fn", "r#fn", "self", "crate", "in", "dyn", "名前",
            ]))],
            _ => vec![s(",")],
        }
    }
    fn expr(&mut self) -> Pieces {
        match self.r.below(12) {
            0 => vec![self.num()],
            1 => vec![s("-"), self.num()],
            2 => vec![self.num(), s("+"), self.num()],
            3 => vec![s("f"), s("("), self.num(), s(","), s("x"), s(")")],
            4 => vec![s(self.r.pick(&["x", "a", "value", "Upper"]))],
            5 => vec![self.strlit()],
            6 => vec![s("&"), s("y")],
            7 => vec![s("!"), s("z")],
            8 => vec![s("("), self.num(), s(","), self.num(), s(")")],
            9 => vec![s("["), self.num(), s("]")],
            10 => vec![s("*"), s("p")],
            _ => vec![s("x"), s("."), s("y")],
        }
    }
    pub fn leaf(&mut self, k: Leaf) -> Pieces {
        match k {
            Leaf::PInt => vec![self.num()],
            Leaf::PStr | Leaf::RStr => vec![self.strlit()],
            Leaf::PId => vec![self.ident()],
            Leaf::PRest => {
                let mut v = self.noise(false);
                if self.r.pct(40) {
                    v.extend(self.noise(false));
                }
                v
            }
            Leaf::PTwo => {
                let mut v = vec![self.num()];
                if self.r.pct(50) {
                    v.insert(0, s(self.r.pick(&["-", "x", "=", "!", "a"])));
                } else {
                    v.extend([s("("), self.num(), s(")")]);
                }
                v
            }
            Leaf::PPair => {
                let a = self.num();
                vec![a, s(","), self.num()]
            }
            Leaf::PNil => vec![],
            Leaf::PGrp => {
                let mut v = vec![s("(")];
                for _ in 0..self.r.below(3) {
                    v.extend(self.noise(true));
                }
                v.push(s(")"));
                v
            }
            Leaf::PAll => {
                let mut v = Vec::new();
                for _ in 0..self.r.below(4) {
                    v.extend(self.noise(true));
                }
                v
            }
            Leaf::PExpr | Leaf::RExpr => self.expr(),
            Leaf::RInt => {
                if self.r.pct(25) {
                    vec![s("-"), self.num()]
                } else {
                    vec![self.num()]
                }
            }
            Leaf::RBool => vec![s(self.r.pick(&["true", "false"]))],
            Leaf::RIdent => vec![s(self.r.pick(&["x", "foo", "value", "a", "ab", "名前", "r#type"]))],
            Leaf::RType => match self.r.below(4) {
                0 => vec![s("u8")],
                1 => vec![s("Vec"), s("<"), s("u8"), s(">")],
                2 => vec![s("("), s("u8"), s(","), s("u16"), s(")")],
                _ => vec![s("["), s("u8"), s(";"), s("2"), s("]")],
            },
        }
    }
    fn ty(&mut self, t: &Ty) -> Pieces {
        match t {
            Ty::Leaf(k) | Ty::Gen(k) => self.leaf(*k),
            Ty::Sub(i) => self.spec(*i),
        }
    }
    fn over(&self) -> bool {
        self.depth >= self.deep || self.made > MOST
    }
    pub fn spec(&mut self, id: usize) -> Pieces {
        self.depth += 1;
        self.made += 1;
        let specs = self.specs;
        let r = match &specs[id].body {
            Body::Sm(b) => self.sm(b),
            Body::Ps(PsSpec::Struct(f)) => self.fields(f),
            Body::Ps(PsSpec::Enum(v)) if v.is_empty() => Pieces::new(),
            Body::Ps(PsSpec::Enum(v)) => {
                let k = self.r.below(v.len());
                self.fields(&v[k].1)
            }
        };
        self.depth -= 1;
        r
    }
    fn len(&mut self) -> usize {
        if self.r.pct(7) { self.r.range(4, 9) } else { self.r.below(4) }
    }
    fn list(&mut self, t: &Ty, sep: &str) -> Pieces {
        let mut n = if self.over() {
            0
        } else if self.depth > 4 && t.sub() {
            // one branch only
            self.r.weighted(&[8, 92])
        } else {
            self.len()
        };
        if self.many > 0 && !t.sub() {
            n = std::mem::take(&mut self.many);
        }
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                v.push(s(sep));
            }
            v.extend(self.ty(t));
        }
        if n > 0 && self.r.pct(25) {
            v.push(s(sep));
        }
        v
    }
    fn paren(v: Pieces) -> Pieces {
        let mut o = vec![s("(")];
        o.extend(v);
        o.push(s(")"));
        o
    }
    /// one named argument of the given style
    fn named(&mut self, name: &str, st: &Style) -> Pieces {
        let mut v = vec![s(name)];
        match st {
            Style::Bool | Style::Flag => {}
            Style::Value(t) => {
                v.push(s("="));
                v.extend(self.ty(t));
            }
            Style::List(t) => {
                let l = self.list(t, ",");
                v.extend(Self::paren(l));
            }
            Style::Nv(t, o) => {
                if !(*o && self.r.pct(45)) {
                    v.push(s("="));
                    v.extend(self.ty(t));
                }
            }
            Style::Na(t, o, l) => {
                if !(*o && self.r.pct(45)) {
                    let l = if *l { self.list(t, ",") } else { self.ty(t) };
                    v.extend(Self::paren(l));
                }
            }
        }
        v
    }
    /// an argument some other struct could take
    fn alien(&mut self, b: &SmSpec) -> Pieces {
        let own: Vec<&SmField> = b.fields.iter().filter(|f| f.role == Role::Named).collect();
        let name = if !own.is_empty() && self.r.pct(60) {
            let n = self.r.pick(&own).name.clone();
            // one edit away
            match self.r.below(4) {
                0 => format!("{n}x"),
                1 if n.chars().count() > 1 => n.chars().skip(1).collect(),
                2 if n.starts_with("r#") => n,
                2 => format!("r#{n}"),
                _ => n,
            }
        } else if self.r.pct(15) {
            // a long one
            let a = *self.r.pick(&["a", "ab_", "é", "名前", "xé", "Upper", "𝒳"]);
            let n = self.r.range(3, 40);
            format!("{}{}", self.r.pick(&["", "x", "xy"]), a.repeat(n))
        } else {
            s(self.r.pick(NAMES))
        };
        let name = if is_name(&name) { name } else { s("zz") };
        let st = match self.r.below(4) {
            0 => Style::Bool,
            1 => Style::Value(Ty::Leaf(Leaf::PInt)),
            2 => Style::List(Ty::Leaf(Leaf::PInt)),
            _ => Style::Value(Ty::Leaf(Leaf::PRest)),
        };
        self.named(&name, &st)
    }
    fn sm(&mut self, b: &SmSpec) -> Pieces {
        let deep = self.depth > self.deep || self.made > MOST;
        let mut args: Vec<Pieces> = Vec::new();
        let mut positional = 0;
        for role in [Role::Req, Role::Opt, Role::Var] {
            let fs: Vec<&SmField> = b.fields.iter().filter(|f| f.role == role).collect();
            let mut stop = false;
            for f in fs {
                let n = match role {
                    Role::Req => 1,
                    Role::Opt => usize::from(!stop && self.r.pct(70)),
                    _ => {
                        if stop || deep {
                            0
                        } else if self.many > 0 && !f.style.ty().unwrap().sub() {
                            std::mem::take(&mut self.many)
                        } else {
                            self.len()
                        }
                    }
                };
                stop |= n == 0;
                for _ in 0..n {
                    let p = self.ty(f.style.ty().unwrap());
                    args.push(p);
                    positional += 1;
                }
            }
            if stop && role == Role::Opt {
                break;
            }
        }
        let mut named: Vec<Pieces> = Vec::new();
        for f in &b.fields {
            if f.role != Role::Named {
                continue;
            }
            let required = !f.opt && !matches!(f.style, Style::Bool | Style::Flag);
            if required || (!deep && self.r.pct(60)) {
                let p = self.named(&f.name, &f.style);
                named.push(p);
            }
        }
        if let Some(f) = b.fields.iter().find(|f| f.role == Role::Rest) {
            let k = if deep {
                0
            } else if self.many > 0 {
                self.many
            } else {
                self.r.below(4)
            };
            for i in 0..k {
                let n = if self.many > 0 {
                    format!("key{i}")
                } else {
                    self.ident()
                };
                // mostly distinct names
                if named.iter().any(|p| p[0] == n) && self.r.pct(90) {
                    continue;
                }
                let p = self.named(&n, &f.style);
                named.push(p);
            }
            self.many = 0;
        }
        self.r.shuffle(&mut named);
        args.extend(named);
        if self.r.pct(self.chan_pct) {
            for _ in 0..1 + self.r.weighted(&[70, 22, 8]) {
                self.damage(&mut args, positional, b);
            }
        }
        let mut o = Vec::new();
        let n = args.len();
        for (i, a) in args.into_iter().enumerate() {
            o.extend(a);
            if i + 1 < n || self.r.pct(20) {
                o.push(s(","));
            }
        }
        o
    }
    /// argument-level channel faults
    fn damage(&mut self, args: &mut Vec<Pieces>, positional: usize, b: &SmSpec) {
        let n = args.len();
        if self.r.pct(self.typo) && self.typo(args, b) {
            self.chan.push("corrupt_name".into());
            return;
        }
        if self.r.pct(self.restyle) && self.restyle(args, positional, b) {
            self.chan.push("change_style".into());
            return;
        }
        let kind = self.r.weighted(&[22, 26, 20, 12, 10, 10]);
        let name = match kind {
            0 if n > 0 => {
                let k = self.r.below(n);
                args.remove(k);
                "drop"
            }
            1 if n > 0 => {
                let named = n > positional && self.r.pct(85);
                let k = if named {
                    positional.min(n - 1) + self.r.below(n - positional.min(n - 1))
                } else {
                    self.r.below(n)
                };
                let mut a = args[k].clone();
                // the copy may be of another style or value
                if self.r.pct(45) {
                    let f = b
                        .fields
                        .iter()
                        .find(|f| f.role == Role::Named && Some(&f.name) == a.first())
                        .or_else(|| b.fields.iter().find(|f| f.role == Role::Rest));
                    if let (Some(f), Some(n)) = (f, a.first().cloned()) {
                        a = self.named(&n, &f.style);
                    }
                }
                let at = match self.r.below(3) {
                    0 => k + 1,
                    1 => n,
                    _ => self.r.range(positional.min(n), n),
                };
                args.insert(at, a);
                "duplicate"
            }
            2 if n > 1 => {
                if self.r.pct(70) && n > positional + 1 {
                    let p = positional.min(n);
                    self.r.shuffle(&mut args[p..]);
                } else {
                    self.r.shuffle(args);
                }
                "reorder"
            }
            3 => {
                let a = self.alien(b);
                let k = self.r.below(n + 1);
                args.insert(k, a);
                "insert_argument"
            }
            4 => {
                let k = self.r.below(n + 1);
                let a = self.noise(false);
                args.insert(k, a);
                "insert_positional"
            }
            _ => {
                let k = self.r.below(n + 1);
                args.insert(k, vec![]);
                "insert_comma"
            }
        };
        self.chan.push(name.into());
    }
    /// an argument arrives in the style of another kind of parameter
    fn restyle(&mut self, args: &mut [Pieces], positional: usize, b: &SmSpec) -> bool {
        if args.is_empty() || b.fields.is_empty() {
            return false;
        }
        let k = self.r.below(args.len());
        let a = args[k].clone();
        let (name, mut val) = if k < positional || a.is_empty() || !is_name(&a[0]) {
            let n = self.r.pick(&b.fields).name.clone();
            (if is_name(&n) { n } else { s("zz") }, a)
        } else {
            let val = match a.get(1).map(|x| x.as_str()) {
                Some("=") => a[2..].to_vec(),
                Some("(") if a.last().is_some_and(|x| x == ")") => a[2..a.len() - 1].to_vec(),
                _ => vec![],
            };
            (a[0].clone(), val)
        };
        if val.is_empty() && self.r.pct(70) {
            val.push(self.num());
        }
        let wrap = |o: &str, v: Pieces, c: &str| {
            let mut x = vec![s(o)];
            x.extend(v);
            x.push(s(c));
            x
        };
        let mut new = vec![name];
        match self.r.weighted(&[22, 22, 26, 10, 12, 5, 3]) {
            0 => {}
            1 => {
                new.push(s("="));
                new.extend(val);
            }
            2 => new.extend(wrap("(", val, ")")),
            3 => {
                new.push(s("="));
                new.extend(wrap("(", val, ")"));
            }
            4 => new = val,
            5 => {
                let (o, c) = *self.r.pick(&[("[", "]"), ("{", "}")]);
                new.extend(wrap(o, val, c));
            }
            _ => new.extend(val),
        }
        args[k] = new;
        true
    }
    /// characters of an argument's name are lost, doubled, changed or swapped
    fn typo(&mut self, args: &mut [Pieces], b: &SmSpec) -> bool {
        let own = |n: &String| {
            b.fields
                .iter()
                .any(|f| f.role == Role::Rest || (f.role == Role::Named && f.name == *n))
        };
        let c: Vec<usize> = (0..args.len())
            .filter(|i| args[*i].first().is_some_and(own))
            .collect();
        if c.is_empty() {
            return false;
        }
        let k = *self.r.pick(&c);
        let mut n: Vec<char> = args[k][0].chars().collect();
        // it comes near to another one
        let others: Vec<Vec<char>> = b
            .fields
            .iter()
            .filter(|f| f.role == Role::Named)
            .map(|f| f.name.chars().collect::<Vec<_>>())
            .filter(|x| x.len() == n.len() && *x != n)
            .collect();
        if !others.is_empty() && self.r.pct(25) {
            let o = self.r.pick(&others);
            let d: Vec<usize> = (0..n.len()).filter(|i| n[*i] != o[*i]).collect();
            let i = *self.r.pick(&d);
            if i + 1 < n.len() && n[i] == o[i + 1] && n[i + 1] == o[i] {
                n.swap(i, i + 1);
            } else {
                n[i] = o[i];
            }
            let n: String = n.into_iter().collect();
            if is_name(&n) {
                args[k][0] = n;
                return true;
            }
            return false;
        }
        for _ in 0..1 + self.r.weighted(&[75, 18, 7]) {
            let l = n.len();
            if l == 0 {
                break;
            }
            let i = self.r.below(l);
            let x = *self.r.pick(&['a', 'b', 'c', 'd', 'e', 'n', 's', 'x', '_', '2', 'é', 'A', '前']);
            match self.r.below(6) {
                0 => {
                    n.remove(i);
                }
                1 => n.insert(i, n[i]),
                2 => n.insert(i, x),
                3 => n.push(x),
                4 if l > 1 => {
                    let i = self.r.below(l - 1);
                    n.swap(i, i + 1);
                }
                _ => n[i] = x,
            }
        }
        let n: String = n.into_iter().collect();
        if !is_name(&n) {
            return false;
        }
        args[k][0] = n;
        true
    }
    fn fields(&mut self, f: &PsFields) -> Pieces {
        let mut o = Pieces::new();
        let mut st: Vec<&'static str> = Vec::new();
        for x in &f.fields {
            for _ in x.close.chars() {
                o.push(s(st.pop().unwrap()));
            }
            match &x.ty {
                PsTy::Boxed(Ty::Sub(_)) if self.over() => {}
                PsTy::Ty(t) | PsTy::Boxed(t) => o.extend(self.ty(t)),
                PsTy::Tok(t) => {
                    // one piece: keeps `=>` joint
                    o.push(s(t));
                }
                PsTy::Delim(c) => {
                    o.push(c.to_string());
                    st.push(close_of(&c.to_string()));
                }
                PsTy::MacroDelim(_) => {
                    let c = *self.r.pick(&["(", "[", "{"]);
                    o.push(s(c));
                    st.push(close_of(c));
                }
                PsTy::AnyIdent => o.push(self.ident()),
                PsTy::Punct(t, sep) => o.extend(self.list(t, sep)),
                PsTy::PunctAny(sep) => {
                    for i in 0..self.r.below(4) {
                        if i > 0 {
                            o.push(s(sep));
                        }
                        let n = self.ident();
                        o.push(n);
                    }
                }
            }
        }
        while let Some(c) = st.pop() {
            o.push(s(c));
        }
        o
    }
    /// token-level channel faults
    pub fn corrupt(&mut self, p: &mut Pieces) {
        let n = p.len();
        if n == 0 {
            if self.r.pct(50) {
                *p = self.noise(true);
                self.chan.push("insert_token".into());
            }
            return;
        }
        let open = |x: &str| matches!(x, "(" | "[" | "{");
        let cl = |x: &str| matches!(x, ")" | "]" | "}");
        match self.r.below(11) {
            10 => {
                // a name becomes a keyword
                let ks: Vec<usize> = (0..n).filter(|k| is_name(&p[*k])).collect();
                if ks.is_empty() {
                    return;
                }
                let k = if self.r.pct(50) { ks[0] } else { *self.r.pick(&ks) };
                p[k] = s(self.r.pick(&["in", "type", "fn", "self", "crate", "_", "true", "dyn"]));
                self.chan.push("corrupt_token".into());
            }
            9 => {
                // another separator
                let cs: Vec<usize> = (0..n).filter(|k| p[*k] == ",").collect();
                if cs.is_empty() {
                    return;
                }
                let k = if self.r.pct(40) { cs[cs.len() - 1] } else { *self.r.pick(&cs) };
                p[k] = s(self.r.pick(&[";", ";", "|", ":", "=", "+", "::", "."]));
                self.chan.push("corrupt_separator".into());
            }
            8 => {
                // a group arrives empty, or with a lone token in it
                let gs: Vec<usize> = (0..n).filter(|k| open(&p[*k])).collect();
                if gs.is_empty() {
                    return;
                }
                let k = *self.r.pick(&gs);
                let Some((a, b)) = match_of(p, k) else { return };
                let x = if self.r.pct(60) { self.noise(true) } else { vec![] };
                p.splice(a + 1..b, x);
                self.chan.push("group_content_lost".into());
            }
            0 | 1 => {
                // the stream ends here
                let k = self.r.below(n);
                p.truncate(k);
                let mut st = Vec::new();
                for x in p.iter() {
                    if open(x) {
                        st.push(close_of(x));
                    } else if cl(x) {
                        st.pop();
                    }
                }
                while let Some(c) = st.pop() {
                    p.push(s(c));
                }
                self.chan.push("cut".into());
            }
            2 | 3 => {
                let k = self.r.below(n);
                if open(&p[k]) || cl(&p[k]) {
                    // change the delimiter of the whole group
                    let Some((a, b)) = match_of(p, k) else { return };
                    let c = *self.r.pick(&["(", "[", "{"]);
                    p[a] = s(c);
                    p[b] = s(close_of(c));
                    self.chan.push("corrupt_delimiter".into());
                } else if self.r.pct(50) {
                    p.remove(k);
                    self.chan.push("lose_token".into());
                } else {
                    let x = self.noise(true);
                    p.splice(k..k + 1, x);
                    self.chan.push("corrupt_token".into());
                }
            }
            4 => {
                let k = self.r.below(n + 1);
                let x = self.noise(true);
                p.splice(k..k, x);
                self.chan.push("insert_token".into());
            }
            5 => {
                let k = self.r.below(n);
                if !open(&p[k]) && !cl(&p[k]) {
                    let x = p[k].clone();
                    p.insert(k, x);
                    self.chan.push("duplicate_token".into());
                }
            }
            6 => {
                let k = self.r.below(n);
                if k + 1 < n
                    && !open(&p[k])
                    && !cl(&p[k])
                    && !open(&p[k + 1])
                    && !cl(&p[k + 1])
                {
                    p.swap(k, k + 1);
                    self.chan.push("swap_tokens".into());
                }
            }
            _ => {
                // extra token at the end of a group
                let k = self.r.below(n + 1);
                let at = (k..n).find(|i| cl(&p[*i])).unwrap_or(n);
                let x = self.noise(true);
                p.splice(at..at, x);
                self.chan.push("extra_token_at_end".into());
            }
        }
    }
    /// random tokens
    pub fn soup(&mut self) -> Pieces {
        let mut o = Vec::new();
        for _ in 0..self.r.below(6) {
            o.extend(self.noise(true));
        }
        o
    }
    /// one valid argument stream of a type, possibly damaged
    pub fn text(&mut self, p: &Pieces) -> String {
        let mode = self.r.below(3);
        let t = self.join(p, mode);
        if t.parse::<TokenStream>().is_ok() {
            return t;
        }
        let t = p.join(" ");
        if t.parse::<TokenStream>().is_ok() {
            t
        } else {
            String::new()
        }
    }
    fn join(&mut self, p: &Pieces, mode: usize) -> String {
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '"' || c == '#');
        let mut o = String::new();
        for x in p {
            let need = word(o.chars().last()) && word(x.chars().next());
            match mode {
                0 => {
                    if !o.is_empty() {
                        o.push(' ');
                    }
                }
                1 => {
                    if need {
                        o.push(' ');
                    }
                }
                _ => match self.r.below(8) {
                    0 => o.push_str("  "),
                    1 => o.push('\n'),
                    2 => o.push_str(" /* c, x = 1 */ "),
                    3 | 4 => o.push(' '),
                    _ => {
                        if need {
                            o.push(' ');
                        }
                    }
                },
            }
            o.push_str(x);
        }
        o
    }
}
pub fn is_name(name: &str) -> bool {
    name.strip_prefix("r#")
        .map(|x| !matches!(x, "self" | "crate" | "super" | "Self" | "_"))
        .unwrap_or(true)
        && name.starts_with(|c: char| c.is_alphabetic() || c == '_')
        && name != "_"
        && name.parse::<TokenStream>().is_ok_and(|t| {
            let v: Vec<_> = t.into_iter().collect();
            matches!(&v[..], [proc_macro2::TokenTree::Ident(_)])
        })
}
fn match_of(p: &Pieces, k: usize) -> Option<(usize, usize)> {
    let mut st = Vec::new();
    for (i, x) in p.iter().enumerate() {
        match x.as_str() {
            "(" | "[" | "{" => st.push(i),
            ")" | "]" | "}" => {
                let a = st.pop()?;
                if a == k || i == k {
                    return Some((a, i));
                }
            }
            _ => {}
        }
    }
    None
}
