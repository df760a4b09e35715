//! `syn` as the derive crate sees it in the simulator: the real one, except
//! that `parse_macro_input!` works on proc_macro2 streams, so that the derive
//! entry points can be called outside a compiler.
pub use syn_real::*;
#[macro_export]
macro_rules! parse_macro_input {
    ($i:ident as $t:ty) => {
        match $crate::parse2::<$t>($i) {
            Ok(x) => x,
            Err(e) => return e.to_compile_error(),
        }
    };
    ($i:ident with $p:path) => {
        match $crate::parse::Parser::parse2($p, $i) {
            Ok(x) => x,
            Err(e) => return e.to_compile_error(),
        }
    };
    ($i:ident) => {
        $crate::parse_macro_input!($i as _)
    };
}
/// `syn::parse` on the compiler's token streams
pub fn parse<T: syn_real::parse::Parse>(tokens: proc_macro2::TokenStream) -> Result<T> {
    parse2(tokens)
}
