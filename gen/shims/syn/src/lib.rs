pub use real::*;

pub fn parse<T: real::parse::Parse>(tokens: proc_macro2::TokenStream) -> real::Result<T> {
    real::parse2(tokens)
}

#[macro_export]
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => {
        match $crate::parse::<$ty>($t) {
            Ok(x) => x,
            Err(e) => return e.to_compile_error(),
        }
    };
    ($t:ident) => {
        match $crate::parse($t) {
            Ok(x) => x,
            Err(e) => return e.to_compile_error(),
        }
    };
}
