//! Intermediate representation of the programs under test: derived types.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Leaf {
    /// simulated field parsers
    PInt,
    PStr,
    PId,
    PRest,
    PTwo,
    PPair,
    PNil,
    PGrp,
    PAll,
    PExpr,
    /// real syn types
    RInt,
    RStr,
    RExpr,
    RBool,
    RIdent,
    RType,
}
pub const PROBES: &[Leaf] = &[
    Leaf::PInt,
    Leaf::PStr,
    Leaf::PId,
    Leaf::PRest,
    Leaf::PTwo,
    Leaf::PPair,
    Leaf::PNil,
    Leaf::PGrp,
    Leaf::PAll,
    Leaf::PExpr,
];
impl Leaf {
    pub fn is_probe(self) -> bool {
        self <= Leaf::PExpr
    }
    pub fn name(self) -> &'static str {
        match self {
            Leaf::PInt => "PInt",
            Leaf::PStr => "PStr",
            Leaf::PId => "PId",
            Leaf::PRest => "PRest",
            Leaf::PTwo => "PTwo",
            Leaf::PPair => "PPair",
            Leaf::PNil => "PNil",
            Leaf::PGrp => "PGrp",
            Leaf::PAll => "PAll",
            Leaf::PExpr => "PExpr",
            Leaf::RInt => "LitInt",
            Leaf::RStr => "LitStr",
            Leaf::RExpr => "Expr",
            Leaf::RBool => "LitBool",
            Leaf::RIdent => "Ident",
            Leaf::RType => "Type",
        }
    }
    /// can be used with `#[parse(peek)]`
    pub fn peekable(self) -> bool {
        matches!(
            self,
            Leaf::PInt
                | Leaf::PStr
                | Leaf::PId
                | Leaf::PGrp
                | Leaf::RInt
                | Leaf::RStr
                | Leaf::RBool
                | Leaf::RIdent
        )
    }
    /// leaves every input that starts with its own text at the following comma
    pub fn comma_safe(self) -> bool {
        !matches!(self, Leaf::PPair | Leaf::PAll)
    }
}
/// An element type: something that implements `Parse`.
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Leaf(Leaf),
    /// another generated type of the same pool
    Sub(usize),
    /// the generic parameter of the definition, instantiated with this leaf
    Gen(Leaf),
}
impl Ty {
    pub fn sub(&self) -> bool {
        matches!(self, Ty::Sub(_))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Record,
    Tuple,
    Unit,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Style {
    Bool,
    Flag,
    Value(Ty),
    List(Ty),
    Nv(Ty, bool),
    /// type, optional (may be a flag), list
    Na(Ty, bool, bool),
}
impl Style {
    pub fn ty(&self) -> Option<&Ty> {
        match self {
            Style::Bool | Style::Flag => None,
            Style::Value(t) | Style::List(t) | Style::Nv(t, _) | Style::Na(t, _, _) => Some(t),
        }
    }
    pub fn ty_mut(&mut self) -> Option<&mut Ty> {
        match self {
            Style::Bool | Style::Flag => None,
            Style::Value(t) | Style::List(t) | Style::Nv(t, _) | Style::Na(t, _, _) => Some(t),
        }
    }
    pub fn flag(&self) -> bool {
        matches!(
            self,
            Style::Bool | Style::Flag | Style::Nv(_, true) | Style::Na(_, true, _)
        )
    }
    pub fn name_value(&self) -> bool {
        matches!(self, Style::Value(_) | Style::Nv(..))
    }
    pub fn name_args(&self) -> bool {
        matches!(self, Style::List(_) | Style::Na(..))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    Req,
    Opt,
    Var,
    Named,
    Rest,
}
#[derive(Clone, Debug)]
pub struct SmField {
    /// record field name as written (`r#type`)
    pub ident: Option<String>,
    pub role: Role,
    pub style: Style,
    /// `Option<..>` around a named parameter's type
    pub opt: bool,
    /// parameter name arguments are matched with
    pub name: String,
    pub name_attr: Option<String>,
    pub unnamed_attr: bool,
    /// which spelling of the std/structmeta paths to use
    pub spell: usize,
}
#[derive(Clone, Debug)]
pub struct SmSpec {
    pub shape: Shape,
    pub fields: Vec<SmField>,
    pub snake: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum PsTy {
    Ty(Ty),
    /// `Token![..]`
    Tok(&'static str),
    /// opens a group: '(' '[' '{'
    Delim(char),
    /// opens a group, `MacroDelimiter`, mark char
    MacroDelim(char),
    /// `Box<T>`, possibly of the type itself
    Boxed(Ty),
    /// `Ident` with `#[parse(any)]`
    AnyIdent,
    /// `Punctuated<T, Token![,]>` with `#[parse(terminated)]`
    Punct(Ty, &'static str),
    /// `Punctuated<Ident, Token![,]>` with `#[parse(terminated, any)]`
    PunctAny(&'static str),
}
#[derive(Clone, Debug)]
pub struct PsField {
    pub ident: Option<String>,
    /// closing marks before this field, e.g. "))"
    pub close: String,
    pub ty: PsTy,
    pub peek: bool,
    /// how the attributes are written
    pub spell: usize,
}
#[derive(Clone, Debug)]
pub struct PsFields {
    pub shape: Shape,
    pub fields: Vec<PsField>,
}
#[derive(Clone, Debug)]
pub enum PsSpec {
    Struct(PsFields),
    Enum(Vec<(String, PsFields)>),
}
#[derive(Clone, Debug)]
pub enum Body {
    Sm(SmSpec),
    Ps(PsSpec),
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub id: usize,
    pub name: String,
    pub body: Body,
    /// written with a generic parameter `T`
    pub generic: Option<Leaf>,
    /// derives Parse but not ToTokens
    pub parse_only: bool,
    /// the definition this one is a variation of
    pub kin: Option<usize>,
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Feat {
    pub sm: bool,
    pub ps: bool,
    pub enums: bool,
    pub spec_variants: bool,
    pub peek_variants: bool,
    pub groups: bool,
    pub name_args: bool,
    pub macro_delim: bool,
    /// expressions or types of syn
    pub syntax: bool,
    /// parameter types written in another way than the plainest
    pub written: bool,
}
impl Spec {
    pub fn is_sm(&self) -> bool {
        matches!(self.body, Body::Sm(_))
    }
    pub fn renders(&self) -> bool {
        !self.is_sm() && !self.parse_only
    }
    pub fn is_enum(&self) -> bool {
        matches!(self.body, Body::Ps(PsSpec::Enum(_)))
    }
    pub fn tys(&self) -> Vec<Ty> {
        let mut r = Vec::new();
        match &self.body {
            Body::Sm(s) => r.extend(s.fields.iter().filter_map(|f| f.style.ty().cloned())),
            Body::Ps(PsSpec::Struct(f)) => r.extend(f.tys()),
            Body::Ps(PsSpec::Enum(v)) => v.iter().for_each(|v| r.extend(v.1.tys())),
        }
        r
    }
    /// features of this definition and of the ones it uses
    pub fn feat(&self, all: &[Spec]) -> Feat {
        let mut f = Feat::default();
        match &self.body {
            Body::Sm(s) => {
                f.sm = true;
                f.name_args = s.fields.iter().any(|x| x.style.name_args());
                f.written = s.fields.iter().any(crate::emit::written);
            }
            Body::Ps(PsSpec::Struct(x)) => {
                f.ps = true;
                f.groups = x.has_groups();
                f.macro_delim = x.has_macro();
            }
            Body::Ps(PsSpec::Enum(v)) => {
                f.ps = true;
                f.enums = true;
                for (_, x) in v {
                    f.groups |= x.has_groups();
                    f.macro_delim |= x.has_macro();
                    if x.fields.iter().any(|y| y.peek) {
                        f.peek_variants = true;
                    } else {
                        f.spec_variants = true;
                    }
                }
            }
        }
        for t in self.tys() {
            if let Ty::Leaf(Leaf::RExpr | Leaf::RType) | Ty::Gen(Leaf::RExpr | Leaf::RType) = t {
                f.syntax = true;
            }
            if let Ty::Sub(i) = t
                && i != self.id
            {
                let g = all[i].feat(all);
                f.sm |= g.sm;
                f.ps |= g.ps;
                f.enums |= g.enums;
                f.spec_variants |= g.spec_variants;
                f.peek_variants |= g.peek_variants;
                f.groups |= g.groups;
                f.name_args |= g.name_args;
                f.macro_delim |= g.macro_delim;
                f.syntax |= g.syntax;
                f.written |= g.written;
            }
        }
        f
    }
}
impl PsFields {
    pub fn tys(&self) -> Vec<Ty> {
        self.fields
            .iter()
            .filter_map(|f| match &f.ty {
                PsTy::Ty(t) | PsTy::Boxed(t) | PsTy::Punct(t, _) => Some(t.clone()),
                _ => None,
            })
            .collect()
    }
    pub fn has_groups(&self) -> bool {
        self.fields
            .iter()
            .any(|f| matches!(f.ty, PsTy::Delim(_) | PsTy::MacroDelim(_)))
    }
    pub fn has_macro(&self) -> bool {
        self.fields
            .iter()
            .any(|f| matches!(f.ty, PsTy::MacroDelim(_)))
    }
}
