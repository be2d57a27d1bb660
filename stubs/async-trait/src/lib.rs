//! Leaves traits and implementations as they are: the compiler supports async functions in traits natively.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_args: TokenStream, item: TokenStream) -> TokenStream { item }
