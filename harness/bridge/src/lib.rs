//! Canonical text of parsed values.
use quote::ToTokens;
pub use simcore::exec::{DynVal, ParseFn};
pub use simcore::look;
use simcore::grammar::{flat_ts, off};
use simcore::probe::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use syn::punctuated::{Pair, Punctuated};

pub trait Canon {
    fn canon(&self, o: &mut String);
}
pub mod prelude {
    pub use crate::{Canon, DynVal};
    pub use simcore::probe::*;
    pub use std::collections::{HashMap, hash_map};
    pub use std::{collections, option, primitive, string, vec};
    pub use structmeta::{Flag, NameArgs, NameValue};
    pub use syn::parse::ParseStream;
    pub use syn::punctuated::Punctuated;
    pub use syn::{Expr, Ident, LitBool, LitInt, LitStr, MacroDelimiter, Type};
}
macro_rules! probes {
    ($($n:ident)*) => { $(
        impl Canon for $n {
            fn canon(&self, o: &mut String) {
                write!(o, "{}\"{}\"@{}", stringify!($n), self.v.text(), self.v.off).unwrap();
            }
        }
    )* };
}
probes!(PInt PStr PId PRest PTwo PPair PNil PGrp PAll PExpr);
macro_rules! reals {
    ($($n:ident)*) => { $(
        impl Canon for syn::$n {
            fn canon(&self, o: &mut String) {
                let ts = self.to_token_stream();
                let at = ts.clone().into_iter().next().map_or(0, |t| off(&t));
                write!(o, "{}\"{}\"@{}", stringify!($n), flat_ts(&ts), at).unwrap();
            }
        }
    )* };
}
reals!(LitInt LitStr Expr LitBool Ident Type);
impl<T: Canon> Canon for Option<T> {
    fn canon(&self, o: &mut String) {
        match self {
            None => o.push('-'),
            Some(x) => {
                o.push('+');
                x.canon(o);
            }
        }
    }
}
impl<T: Canon> Canon for Box<T> {
    fn canon(&self, o: &mut String) {
        (**self).canon(o)
    }
}
impl<T: Canon> Canon for Vec<T> {
    fn canon(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            x.canon(o);
        }
        o.push(']');
    }
}
impl<T: Canon> Canon for HashMap<String, T> {
    fn canon(&self, o: &mut String) {
        let m: BTreeMap<_, _> = self.iter().collect();
        o.push('{');
        for (i, (k, x)) in m.into_iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            write!(o, "{k}:").unwrap();
            x.canon(o);
        }
        o.push('}');
    }
}
impl Canon for bool {
    fn canon(&self, o: &mut String) {
        o.push_str(if *self { "B1" } else { "B0" });
    }
}
impl Canon for structmeta::Flag {
    fn canon(&self, o: &mut String) {
        match self.span {
            None => o.push_str("F-"),
            Some(s) => write!(o, "F@{}", s.byte_range().start).unwrap(),
        }
        if self.value() != self.span.is_some() {
            o.push_str("!value");
        }
    }
}
impl<T: Canon> Canon for structmeta::NameValue<T> {
    fn canon(&self, o: &mut String) {
        write!(o, "NV@{}(", self.name_span.byte_range().start).unwrap();
        self.value.canon(o);
        o.push(')');
    }
}
impl<T: Canon> Canon for structmeta::NameArgs<T> {
    fn canon(&self, o: &mut String) {
        write!(o, "NA@{}(", self.name_span.byte_range().start).unwrap();
        self.args.canon(o);
        o.push(')');
    }
}
impl<T: Canon, P> Canon for Punctuated<T, P> {
    fn canon(&self, o: &mut String) {
        o.push('[');
        for p in self.pairs() {
            match p {
                Pair::Punctuated(x, _) => {
                    x.canon(o);
                    o.push(',');
                }
                Pair::End(x) => x.canon(o),
            }
        }
        o.push(']');
    }
}
macro_rules! toks {
    ($($t:tt)*) => { $(
        impl Canon for syn::Token![$t] {
            fn canon(&self, o: &mut String) {
                o.push_str(concat!("'", stringify!($t), "'"));
            }
        }
    )* };
}
toks!(, ; = => -> : :: fn struct + - ? < | in);
macro_rules! delims {
    ($($n:ident $c:literal)*) => { $(
        impl Canon for syn::token::$n {
            fn canon(&self, o: &mut String) {
                write!(o, "{}@{}", $c, self.span.open().byte_range().start).unwrap();
            }
        }
    )* };
}
delims!(Paren '(' Bracket '[' Brace '{');
impl Canon for syn::MacroDelimiter {
    fn canon(&self, o: &mut String) {
        o.push('D');
        match self {
            syn::MacroDelimiter::Paren(x) => x.canon(o),
            syn::MacroDelimiter::Bracket(x) => x.canon(o),
            syn::MacroDelimiter::Brace(x) => x.canon(o),
        }
    }
}
struct SmV<T>(T);
impl<T: Canon> DynVal for SmV<T> {
    fn canon(&self, o: &mut String) {
        self.0.canon(o)
    }
    fn render(&self) -> Option<&dyn ToTokens> {
        None
    }
}
struct PsV<T>(T);
impl<T: Canon + ToTokens> DynVal for PsV<T> {
    fn canon(&self, o: &mut String) {
        self.0.canon(o)
    }
    fn render(&self) -> Option<&dyn ToTokens> {
        Some(&self.0)
    }
}
pub fn boxed_sm<T: Canon + 'static>(v: T) -> Box<dyn DynVal> {
    Box::new(SmV(v))
}
pub fn boxed_ps<T: Canon + ToTokens + 'static>(v: T) -> Box<dyn DynVal> {
    Box::new(PsV(v))
}
