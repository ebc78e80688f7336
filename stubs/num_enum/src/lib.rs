//! Stand-in for num_enum's IntoPrimitive and TryFromPrimitive derives.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

fn repr(input: &DeriveInput) -> syn::Path {
    for a in &input.attrs {
        if a.path().is_ident("repr") {
            return a.parse_args().unwrap();
        }
    }
    panic!("repr")
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (n, r) = (&input.ident, repr(&input));
    quote!(impl ::core::convert::From<#n> for #r { fn from(v: #n) -> #r { v as #r } }).into()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (n, r) = (&input.ident, repr(&input));
    let Data::Enum(e) = &input.data else { panic!("enum") };
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    quote!(impl ::core::convert::TryFrom<#r> for #n {
        type Error = String;
        fn try_from(v: #r) -> ::core::result::Result<#n, String> {
            #(if v == #n::#vs as #r { return Ok(#n::#vs); })*
            Err(format!("no discriminant in enum `{}` matches the value `{}`", stringify!(#n), v))
        }
    }).into()
}
