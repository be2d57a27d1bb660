//! `skip_serializing_none`: every field of type Option is left out when it is None.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, parse_quote, Fields, ItemStruct, Type};

#[proc_macro_attribute]
pub fn skip_serializing_none(_args: TokenStream, item: TokenStream) -> TokenStream {
  let mut s = parse_macro_input!(item as ItemStruct);
  if let Fields::Named(fields) = &mut s.fields {
    for f in &mut fields.named {
      let option = match &f.ty {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false),
        _ => false
      };
      if option { f.attrs.push(parse_quote!(#[serde(skip_serializing_if = "Option::is_none")])); }
    }
  }
  quote!(#s).into()
}
