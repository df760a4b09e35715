//! Writes generated programs as Rust source.
use crate::ir::*;
use std::fmt::Write;

fn pick(v: &[&'static str], n: usize) -> &'static str {
    v[n % v.len()]
}
fn opt_path(n: usize) -> &'static str {
    pick(
        &[
            "Option",
            "std::option::Option",
            "::std::option::Option",
            "core::option::Option",
            "::core::option::Option",
            "option::Option",
        ],
        n,
    )
}
fn vec_path(n: usize) -> &'static str {
    pick(&["Vec", "std::vec::Vec", "::std::vec::Vec", "vec::Vec"], n)
}
fn sm_path(name: &str, n: usize) -> String {
    format!("{}{name}", pick(&["", "structmeta::", "::structmeta::"], n))
}
pub fn ty(t: &Ty) -> String {
    match t {
        Ty::Leaf(l) => l.name().to_string(),
        Ty::Gen(_) => "T".into(),
        Ty::Sub(i) => format!("super::s{i}::Me"),
    }
}
/// the same type, sometimes under a name that only looks like one of the special ones
fn ty_n(t: &Ty, n: usize) -> String {
    let x = ty(t);
    if n % 11 != 3 || t.sub() {
        return x;
    }
    let k = n / 11;
    match k % 12 {
        6 => format!("bridge::look::std::option::Option<{x}>"),
        7 => format!("bridge::look::std::vec::Vec<{x}>"),
        8 => format!("bridge::look::structmeta::NameValue<{x}>"),
        9 => format!("bridge::look::structmeta::NameArgs<{x}>"),
        10 => format!("bridge::look::std::collections::HashMap<String, {x}>"),
        11 if *t == Ty::Leaf(Leaf::PInt) => "bridge::look::structmeta::Flag".into(),
        11 => format!("bridge::look::core::option::Option<{x}>"),
        0 => format!("bridge::look::Option<{x}>"),
        1 => format!("bridge::look::Vec<{x}>"),
        2 => format!("bridge::look::NameValue<{x}>"),
        3 => format!("bridge::look::NameArgs<{x}>"),
        4 => format!("bridge::look::HashMap<String, {x}>"),
        _ if *t == Ty::Leaf(Leaf::PInt) => {
            pick(&["bridge::look::bool", "bridge::look::Flag", "bridge::look::core::primitive::bool"], k / 12).into()
        }
        _ => format!("bridge::look::option::Option<{x}, ()>"),
    }
}
fn style(s: &Style, n: usize) -> String {
    let ty = |t: &Ty| ty_n(t, n);
    match s {
        Style::Bool => pick(&["bool", "std::primitive::bool", "core::primitive::bool", "primitive::bool"], n).into(),
        Style::Flag => sm_path("Flag", n),
        Style::Value(t) => ty(t),
        Style::List(t) => format!("{}<{}>", vec_path(n), ty(t)),
        Style::Nv(t, o) => {
            let mut x = ty(t);
            if *o {
                x = format!("{}<{x}>", opt_path(n / 3));
            }
            format!("{}<{x}>", sm_path("NameValue", n))
        }
        Style::Na(t, o, l) => {
            let mut x = ty(t);
            if *l {
                x = format!("{}<{x}>", vec_path(n / 2));
            }
            if *o {
                x = format!("{}<{x}>", opt_path(n / 3));
            }
            format!("{}<{x}>", sm_path("NameArgs", n))
        }
    }
}
fn sm_field_ty(f: &SmField) -> String {
    let n = f.spell;
    let s = style(&f.style, n);
    match f.role {
        Role::Req => s,
        Role::Opt => format!("{}<{s}>", opt_path(n)),
        Role::Var => format!("{}<{s}>", vec_path(n)),
        Role::Named if f.opt => format!("{}<{s}>", opt_path(n)),
        Role::Named => s,
        Role::Rest => format!(
            "{}<{}, {s}>",
            pick(
                &[
                    "HashMap",
                    "std::collections::HashMap",
                    "::std::collections::HashMap",
                    "std::collections::hash_map::HashMap",
                    "collections::HashMap",
                    "hash_map::HashMap",
                    "collections::hash_map::HashMap",
                ],
                n
            ),
            pick(&["String", "std::string::String", "::std::string::String", "string::String"], n)
        ),
    }
}
/// not the plainest way to write its type
pub fn written(f: &SmField) -> bool {
    sm_field_ty(f) != sm_field_ty(&SmField { spell: 0, ..f.clone() })
}
fn generics(s: &Spec, bounds: &str) -> (String, String) {
    if s.generic.is_none() {
        return (String::new(), String::new());
    }
    // a default where nothing else follows, a constant beside the type
    let (before, after) = match s.id / 2 % 5 {
        0 => ("", " = PInt"),
        1 => ("const N: usize, ", ""),
        2 if s.id % 4 < 2 => ("'a: 'static, 'b: 'a, ", ""),
        2 => ("'a, 'b, ", ""),
        _ => ("", ""),
    };
    if s.id.is_multiple_of(2) {
        (format!("<{before}T: {bounds}{after}>"), String::new())
    } else {
        (format!("<{before}T{after}>"), format!(" where T: {bounds}"))
    }
}
fn const_generic(s: &Spec) -> bool {
    s.generic.is_some() && s.id / 2 % 5 == 1
}
/// with lifetimes of its own
fn tied(s: &Spec) -> bool {
    s.generic.is_some() && s.id / 2 % 5 == 2
}
/// every `T` in the types of the fields under a name that needs the lifetimes
fn tie(text: &str) -> String {
    let mut o = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if line.len() == t.len() || t.starts_with('#') {
            o.push_str(line);
        } else {
            let mut word = String::new();
            for c in line.chars().chain(['\n']) {
                if c.is_alphanumeric() || c == '_' || c == '#' {
                    word.push(c);
                } else {
                    o.push_str(if word == "T" { "bridge::look::Tied<'a, 'b, T>" } else { &word });
                    word.clear();
                    o.push(c);
                }
            }
            continue;
        }
        o.push('\n');
    }
    o
}
/// every path into the crate with a leading `::`
fn global(o: &str, name: &str) -> String {
    o.replace(&format!("look::{name}::"), "look::!::")
        .replace(&format!("::{name}::"), &format!("{name}::"))
        .replace(&format!("{name}::"), &format!("::{name}::"))
        .replace("look::!::", &format!("look::{name}::"))
}
/// modules of the user's own that happen to be called like the crates
fn shadowed(s: &Spec) -> bool {
    s.id % 17 == 5
}
/// the definition with its derives, as the user would write it
pub fn definition(s: &Spec) -> String {
    let mut o = definition_with(s, true);
    if tied(s) {
        o = tie(&o);
    }
    if s.generic.is_none() && s.id % 3 == 1 {
        o = o.replace(&format!("super::s{}::Me", s.id), "Self");
    }
    if shadowed(s) {
        o = global(&o, "structmeta");
        o = global(&o, "syn");
    }
    decorate(&o, s.id)
}
/// The ways of writing the same definition that do not change what it says: other
/// attributes around the derives' own, other spellings of the string literals.
fn decorate(text: &str, id: usize) -> String {
    let mut o = String::new();
    for (n, line) in text.lines().enumerate() {
        let h = (id * 131 + n * 17 + 7).wrapping_mul(0x9E37_79B9_7F4A_7C15_u64 as usize) >> 20;
        let t = line.trim_start();
        let own = ["#[struct_meta(", "#[to_tokens(", "#[parse("].iter().any(|x| t.starts_with(x));
        if (own || t.starts_with(|c: char| c.is_alphanumeric() || c == '_')) && h.is_multiple_of(9) {
            o.push_str(pick(
                &[
                    "/// struct_meta, to_tokens, parse\n",
                    "#[allow(unused)]\n",
                    "#[rustfmt::skip]\n",
                    "#[cfg(all())]\n",
                    "/** peek */ #[allow(dead_code)]\n",
                ],
                h / 9,
            ));
        }
        if !own {
            if t.starts_with("pub ") && !t.starts_with("pub struct") && !t.starts_with("pub enum") && h % 13 == 4 {
                o.push_str(&line.replacen("pub ", pick(&["pub(crate) ", "", "pub(super) "], h / 13), 1));
            } else if t.starts_with("#[derive(") && h % 4 == 1 {
                o.push_str(&line.replace(", ", ")] #[derive("));
            } else {
                o.push_str(line);
            }
            o.push('\n');
            continue;
        }
        let mut line = match h / 64 % 12 {
            0 => requote(line, |x| format!("r\"{x}\"")),
            1 => requote(line, |x| format!("r#\"{x}\"#")),
            2 => requote(line, |x| {
                let mut c = x.chars();
                let first = c.next().map_or(String::new(), |c| format!("\\u{{{:x}}}", c as u32));
                format!("\"{first}{}\"", c.as_str())
            }),
            3 => requote(line, |x| {
                x.chars().fold("\"".to_string(), |o, c| match c {
                    c if c.is_ascii() => format!("{o}\\x{:02x}", c as u32),
                    c => format!("{o}{c}"),
                }) + "\""
            }),
            _ => line.to_string(),
        };
        if h / 1024 % 8 == 3 {
            line.truncate(line.len() - 2);
            line.push_str(",)]");
        }
        if h / 8192 % 10 == 3 {
            line = line.replacen("#[", "#[cfg_attr(all(), ", 1);
            line.truncate(line.len() - 2);
            line.push_str("))]");
        }
        o.push_str(&line);
        o.push('\n');
    }
    o
}
/// every plain string literal of the line written by `f`
fn requote(line: &str, f: impl Fn(&str) -> String) -> String {
    line.split('"')
        .enumerate()
        .map(|(k, x)| if k % 2 == 1 { f(x) } else { x.to_string() })
        .collect()
}
pub fn definition_with(s: &Spec, derives: bool) -> String {
    let mut o = String::new();
    match &s.body {
        Body::Sm(b) => {
            if derives {
                o.push_str("#[derive(structmeta::StructMeta)]\n");
            }
            if b.snake {
                o.push_str("#[struct_meta(name_filter = \"snake_case\")]\n");
            }
            let (g, w) = generics(s, "syn::parse::Parse");
            write!(o, "pub struct {}{g}", s.name).unwrap();
            let tuple = b.shape == Shape::Tuple;
            match b.shape {
                Shape::Unit => {
                    o.push_str(";\n");
                    return o;
                }
                Shape::Tuple => o.push_str("(\n"),
                Shape::Record => writeln!(o, "{w} {{").unwrap(),
            }
            for f in &b.fields {
                let mut a: Vec<String> = Vec::new();
                if let Some(n) = &f.name_attr {
                    a.push(format!("name = \"{n}\""));
                }
                if f.unnamed_attr {
                    a.push("unnamed".into());
                }
                if !a.is_empty() {
                    writeln!(o, "    #[struct_meta({})]", a.join(", ")).unwrap();
                }
                match &f.ident {
                    Some(i) => writeln!(o, "    pub {i}: {},", sm_field_ty(f)).unwrap(),
                    None => writeln!(o, "    pub {},", sm_field_ty(f)).unwrap(),
                }
            }
            if tuple {
                writeln!(o, "){w};").unwrap();
            } else {
                o.push_str("}\n");
            }
        }
        Body::Ps(b) => {
            if derives {
                o.push_str(if s.parse_only {
                    "#[derive(structmeta::Parse)]\n"
                } else {
                    "#[derive(structmeta::Parse, structmeta::ToTokens)]\n"
                });
            }
            let (g, w) = generics(s, "syn::parse::Parse + quote::ToTokens");
            match b {
                PsSpec::Struct(f) => {
                    write!(o, "pub struct {}{g}", s.name).unwrap();
                    match f.shape {
                        Shape::Unit => o.push_str(";\n"),
                        Shape::Tuple => {
                            o.push_str("(\n");
                            ps_fields(&mut o, f, "pub ");
                            writeln!(o, "){w};").unwrap();
                        }
                        Shape::Record => {
                            writeln!(o, "{w} {{").unwrap();
                            ps_fields(&mut o, f, "pub ");
                            o.push_str("}\n");
                        }
                    }
                }
                PsSpec::Enum(vs) => {
                    writeln!(o, "pub enum {}{g}{w} {{", s.name).unwrap();
                    for (n, f) in vs {
                        write!(o, "    {n}").unwrap();
                        match f.shape {
                            Shape::Unit => {}
                            Shape::Tuple => {
                                o.push_str("(\n");
                                ps_fields(&mut o, f, "");
                                o.push(')');
                            }
                            Shape::Record => {
                                o.push_str(" {\n");
                                ps_fields(&mut o, f, "");
                                o.push('}');
                            }
                        }
                        o.push_str(",\n");
                    }
                    o.push_str("}\n");
                }
            }
        }
    }
    o
}
pub fn ps_ty(t: &PsTy) -> String {
    match t {
        PsTy::Ty(t) => ty(t),
        PsTy::Boxed(t) => format!("Box<{}>", ty(t)),
        PsTy::Tok(t) => format!("syn::Token![{t}]"),
        PsTy::Delim('(') => "syn::token::Paren".into(),
        PsTy::Delim('[') => "syn::token::Bracket".into(),
        PsTy::Delim(_) => "syn::token::Brace".into(),
        PsTy::MacroDelim(c) => if *c == '(' { "MacroDelimiter" } else { "syn::MacroDelimiter" }.into(),
        PsTy::AnyIdent => "Ident".into(),
        PsTy::Punct(t, s) => format!("Punctuated<{}, syn::Token![{s}]>", ty(t)),
        PsTy::PunctAny(s) => format!("Punctuated<Ident, syn::Token![{s}]>"),
    }
}
fn ps_fields(o: &mut String, f: &PsFields, vis: &str) {
    let mut shut = false;
    for (i, x) in f.fields.iter().enumerate() {
        let mut marks: Vec<String> = Vec::new();
        // the opening field may have closed its group itself
        for c in x.close.chars().skip(usize::from(shut)) {
            marks.push(c.to_string());
        }
        shut = false;
        if let PsTy::Delim(c) | PsTy::MacroDelim(c) = x.ty {
            marks.push(c.to_string());
            let next = f.fields.get(i + 1);
            if x.spell >= 6 && next.is_none_or(|n| !n.close.is_empty()) {
                shut = true;
                marks.push(if c == '(' { ")" } else if c == '[' { "]" } else { "}" }.into());
            }
        }
        if !marks.is_empty() {
            match x.spell % 3 {
                0 => writeln!(o, "    #[to_tokens(\"{}\")]", marks.concat()).unwrap(),
                1 => {
                    let m: Vec<String> = marks.iter().map(|m| format!("\"{m}\"")).collect();
                    writeln!(o, "    #[to_tokens({})]", m.join(", ")).unwrap();
                }
                _ => {
                    for m in &marks {
                        writeln!(o, "    #[to_tokens(\"{m}\")]").unwrap();
                    }
                }
            }
        }
        let mut a = Vec::new();
        if matches!(x.ty, PsTy::Punct(..) | PsTy::PunctAny(_)) {
            a.push("terminated");
        }
        if x.peek {
            a.push("peek");
        }
        if matches!(x.ty, PsTy::AnyIdent | PsTy::PunctAny(_)) {
            a.push("any");
        }
        if !a.is_empty() {
            if x.spell >= 4 {
                for m in &a {
                    writeln!(o, "    #[parse({m})]").unwrap();
                }
            } else {
                if x.spell % 2 == 1 {
                    a.reverse();
                }
                writeln!(o, "    #[parse({})]", a.join(", ")).unwrap();
            }
        }
        match &x.ident {
            Some(i) => writeln!(o, "    {vis}{i}: {},", ps_ty(&x.ty)).unwrap(),
            None => writeln!(o, "    {vis}{},", ps_ty(&x.ty)).unwrap(),
        }
    }
}
/// the module with the definition and the glue the simulator needs
pub fn module(s: &Spec) -> String {
    let mut o = String::new();
    writeln!(o, "pub mod s{} {{ // SPEC {}", s.id, s.id).unwrap();
    o.push_str("use bridge::prelude::*;\n");
    if shadowed(s) {
        o.push_str("#[allow(unused)] mod structmeta {}\n#[allow(unused)] mod syn {}\n");
    }
    o.push_str(&definition(s));
    let inst = s.generic.map_or(String::new(), |l| match (const_generic(s), tied(s)) {
        (true, _) => format!("<3, {}>", l.name()),
        (_, true) => format!("<'static, 'static, {}>", l.name()),
        _ => format!("<{}>", l.name()),
    });
    writeln!(o, "pub type Me = {}{inst};", s.name).unwrap();
    writeln!(o, "impl Canon for Me {{ fn canon(&self, o: &mut String) {{").unwrap();
    let field = |k: usize, i: &Option<String>| i.clone().unwrap_or(k.to_string());
    match &s.body {
        Body::Sm(b) => {
            writeln!(o, "o.push_str(\"S{}{{\");", s.id).unwrap();
            for (k, f) in b.fields.iter().enumerate() {
                writeln!(o, "Canon::canon(&self.{}, o); o.push(';');", field(k, &f.ident)).unwrap();
            }
            o.push_str("o.push('}');\n");
        }
        Body::Ps(PsSpec::Struct(b)) => {
            writeln!(o, "o.push_str(\"S{}(\");", s.id).unwrap();
            for (k, f) in b.fields.iter().enumerate() {
                writeln!(o, "Canon::canon(&self.{}, o); o.push(';');", field(k, &f.ident)).unwrap();
            }
            o.push_str("o.push(')');\n");
        }
        Body::Ps(PsSpec::Enum(vs)) => {
            o.push_str(if vs.is_empty() { "match *self {\n" } else { "match self {\n" });
            for (n, f) in vs {
                let binds: Vec<String> = f
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(k, x)| match &x.ident {
                        Some(i) => format!("{i}: f{k}"),
                        None => format!("f{k}"),
                    })
                    .collect();
                let pat = match f.shape {
                    Shape::Unit => String::new(),
                    Shape::Tuple => format!("({})", binds.join(", ")),
                    Shape::Record => format!(" {{ {} }}", binds.join(", ")),
                };
                write!(o, "{}::{n}{pat} => {{ o.push_str(\"S{}.{n}(\");", s.name, s.id).unwrap();
                for k in 0..f.fields.len() {
                    write!(o, "Canon::canon(f{k}, o); o.push(';');").unwrap();
                }
                o.push_str("}\n");
            }
            o.push_str("}\no.push(')');\n");
        }
    }
    o.push_str("} }\n");
    let b = if s.renders() { "boxed_ps" } else { "boxed_sm" };
    writeln!(
        o,
        "pub fn p(i: ParseStream) -> ::syn::Result<Box<dyn DynVal>> {{ Ok(bridge::{b}(i.parse::<Me>()?)) }}"
    )
    .unwrap();
    o.push_str("}\n");
    o
}
/// all modules and the table of entry points; `skip` lists definitions left out
pub fn pool(specs: &[Spec], skip: &[usize]) -> String {
    let mut o = String::new();
    let mut dead: Vec<usize> = skip.to_vec();
    for s in specs {
        if s.tys().iter().any(|t| matches!(t, Ty::Sub(i) if dead.contains(i))) {
            dead.push(s.id);
        }
    }
    for s in specs {
        if !dead.contains(&s.id) {
            o.push_str(&module(s));
        }
    }
    o.push_str("// SPEC END\npub static TABLE: &[(usize, bridge::ParseFn)] = &[\n");
    for s in specs {
        if !dead.contains(&s.id) {
            writeln!(o, "({}, s{}::p),", s.id, s.id).unwrap();
        }
    }
    o.push_str("];\n");
    o
}
