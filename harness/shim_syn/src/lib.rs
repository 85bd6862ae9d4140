//! The part of `syn` that needs the compiler's token streams, on `proc_macro2`'s.
pub use syn::parse2 as parse;
pub use syn::*;

#[doc(hidden)]
pub mod __shim {
    pub use proc_macro2::TokenStream;
    pub use std::result::Result::{Err, Ok};
}

#[macro_export]
macro_rules! parse_macro_input {
    ($tokenstream:ident as $ty:ty) => {
        match $crate::parse2::<$ty>($tokenstream) {
            $crate::__shim::Ok(data) => data,
            $crate::__shim::Err(err) => {
                return $crate::__shim::TokenStream::from(err.to_compile_error());
            }
        }
    };
    ($tokenstream:ident with $parser:path) => {
        match $crate::parse::Parser::parse2($parser, $tokenstream) {
            $crate::__shim::Ok(data) => data,
            $crate::__shim::Err(err) => {
                return $crate::__shim::TokenStream::from(err.to_compile_error());
            }
        }
    };
    ($tokenstream:ident) => {
        $crate::parse_macro_input!($tokenstream as _)
    };
}
