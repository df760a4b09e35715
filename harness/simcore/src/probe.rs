//! Field types whose parsers, peeks and renderers belong to the simulator.
use crate::ctx::{self, Val};
use crate::ir::Leaf;
use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::parse::{Parse, ParseStream, Result};

macro_rules! probe {
    ($($n:ident)*) => { $(
        #[derive(Clone, Debug)]
        pub struct $n { pub v: Val }
        impl Parse for $n {
            fn parse(input: ParseStream) -> Result<Self> {
                Ok($n { v: ctx::parse(Leaf::$n, input)? })
            }
        }
        impl ToTokens for $n {
            fn to_tokens(&self, tokens: &mut TokenStream) {
                ctx::render(&self.v, tokens)
            }
        }
    )* };
}
macro_rules! peekable {
    ($($n:ident)*) => { $(
        #[doc(hidden)]
        #[allow(non_snake_case)]
        pub fn $n<S: syn::__private::IntoSpans<proc_macro2::Span>>(_: S) -> $n {
            unreachable!()
        }
        impl syn::__private::CustomToken for $n {
            fn peek(c: syn::buffer::Cursor) -> bool {
                ctx::peek(Leaf::$n, c)
            }
            fn display() -> &'static str {
                stringify!($n)
            }
        }
    )* };
}
probe!(PInt PStr PId PRest PTwo PPair PNil PGrp PAll PExpr);
peekable!(PInt PStr PId PGrp);
