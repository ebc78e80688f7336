//! Stand-in for async-recursion: boxes the body of an async fn (one lifetime for all borrowed arguments).
use proc_macro::TokenStream;
use quote::quote;
use syn::visit_mut::VisitMut;
use syn::{parse_macro_input, parse_quote, ItemFn, Lifetime, ReturnType, TypeReference};

struct Name;
impl VisitMut for Name {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(Lifetime::new("'rec", proc_macro2::Span::call_site()));
        }
        syn::visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_receiver_mut(&mut self, r: &mut syn::Receiver) {
        if let Some((_, l)) = &mut r.reference {
            *l = Some(Lifetime::new("'rec", proc_macro2::Span::call_site()));
        }
        if let syn::Type::Reference(t) = &mut *r.ty {
            t.lifetime = Some(Lifetime::new("'rec", proc_macro2::Span::call_site()));
        }
    }
}
#[proc_macro_attribute]
pub fn async_recursion(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    f.sig.asyncness = None;
    for a in f.sig.inputs.iter_mut() {
        Name.visit_fn_arg_mut(a);
    }
    for l in f.sig.generics.lifetimes_mut() {
        l.bounds.push(parse_quote!('rec));
    }
    f.sig.generics.params.insert(0, parse_quote!('rec));
    let out = match &f.sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    f.sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> + ::core::marker::Send + 'rec>>);
    let b = &f.block;
    f.block = parse_quote!({ Box::pin(async move #b) });
    quote!(#f).into()
}
