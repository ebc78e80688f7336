//! Stand-in for derive_builder's Builder with the attributes cnosdb uses.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let text = |a: &syn::Attribute| match &a.meta {
        syn::Meta::List(l) if a.path().is_ident("builder") => l.tokens.to_string().replace(' ', ""),
        _ => String::new(),
    };
    let all: String = input.attrs.iter().map(&text).collect();
    let n = &input.ident;
    let b = format_ident!("{}Builder", n);
    let e = format_ident!("{}BuilderError", n);
    let Data::Struct(s) = &input.data else { panic!("struct") };
    let (mut decl, mut set, mut build) = (vec![], vec![], vec![]);
    for f in &s.fields {
        let (i, t, v) = (f.ident.as_ref().unwrap(), &f.ty, &f.vis);
        let here: String = f.attrs.iter().map(&text).collect();
        let both = format!("{here},{all}");
        decl.push(quote!(#i: ::core::option::Option<#t>));
        let inner = match t {
            syn::Type::Path(p) if p.path.segments.last().unwrap().ident == "Option" => match &p.path.segments.last().unwrap().arguments {
                syn::PathArguments::AngleBracketed(a) => a.args.first().cloned(),
                _ => None,
            },
            _ => None,
        };
        let strip = both.contains("strip_option") && inner.is_some();
        let into = both.contains("into");
        let arg = if strip { quote!(#inner) } else { quote!(#t) };
        let ty = if into { quote!(impl ::core::convert::Into<#arg>) } else { arg };
        let val = if into { quote!(value.into()) } else { quote!(value) };
        let val = if strip { quote!(::core::option::Option::Some(#val)) } else { val };
        if !here.contains("setter(custom)") && !here.contains("setter(skip)") && !here.contains("custom") {
            let vis = if all.contains("private") || here.contains("private") { quote!() } else { quote!(pub) };
            let _ = v;
            set.push(quote!(#vis fn #i(&mut self, value: #ty) -> &mut Self { self.#i = ::core::option::Option::Some(#val); self }));
        }
        build.push(if both.contains("default") {
            quote!(#i: self.#i.clone().unwrap_or_default())
        } else {
            quote!(#i: self.#i.clone().ok_or_else(|| #e::UninitializedField(stringify!(#i)))?)
        });
    }
    quote!(
        #[derive(Clone, Default)]
        pub struct #b { #(pub #decl),* }
        #[derive(Debug)]
        pub enum #e { UninitializedField(&'static str), ValidationError(String) }
        impl ::core::fmt::Display for #e {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                match self { #e::UninitializedField(s) => write!(f, "`{}` must be initialized", s), #e::ValidationError(s) => write!(f, "{}", s) }
            }
        }
        impl ::std::error::Error for #e {}
        impl ::core::convert::From<String> for #e { fn from(s: String) -> #e { #e::ValidationError(s) } }
        impl ::core::convert::From<&'static str> for #e { fn from(s: &'static str) -> #e { #e::UninitializedField(s) } }
        impl #b {
            #(#set)*
            pub fn build(&self) -> ::core::result::Result<#n, #e> { Ok(#n { #(#build),* }) }
        }
    ).into()
}
