//! syn, save for `parse_macro_input!` which returns proc_macro2 streams here: the macro under test is run in-process.
pub use real_syn::*;
#[macro_export]
macro_rules! parse_macro_input {
    ($tokens:ident as $ty:ty) => {
        match $crate::parse2::<$ty>($tokens) {
            Ok(data) => data,
            Err(err) => return err.to_compile_error().into(),
        }
    };
    ($tokens:ident with $parser:path) => {
        match $crate::parse::Parser::parse2($parser, $tokens) {
            Ok(data) => data,
            Err(err) => return err.to_compile_error().into(),
        }
    };
    ($tokens:ident) => {
        $crate::parse_macro_input!($tokens as _)
    };
}
