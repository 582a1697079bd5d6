//! Stand-in for smart-default: `#[default]` on a variant, `#[default(expr)]` on a field.
use proc_macro2::TokenStream;
use quote::quote;
fn value(f: &syn::Field) -> TokenStream {
    for a in &f.attrs {
        if a.path.is_ident("default") {
            return match a.parse_args::<syn::Expr>() {
                Ok(e) => quote! { #e },
                Err(_) => quote! { ::core::default::Default::default() },
            };
        }
    }
    quote! { ::core::default::Default::default() }
}
fn body(path: TokenStream, fields: &syn::Fields) -> TokenStream {
    match fields {
        syn::Fields::Named(n) => {
            let v = n.named.iter().map(|f| {
                let i = &f.ident;
                let e = value(f);
                quote! { #i: #e, }
            });
            quote! { #path { #(#v)* } }
        }
        syn::Fields::Unnamed(n) => {
            let v = n.unnamed.iter().map(value);
            quote! { #path ( #(#v),* ) }
        }
        syn::Fields::Unit => path,
    }
}
#[proc_macro_derive(SmartDefault, attributes(default))]
pub fn smart_default(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: syn::DeriveInput = syn::parse(i).unwrap();
    let n = &d.ident;
    let (g, t, w) = d.generics.split_for_impl();
    let b = match &d.data {
        syn::Data::Struct(s) => body(quote! { #n }, &s.fields),
        syn::Data::Enum(e) => {
            let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path.is_ident("default"))).expect("no default variant");
            let vi = &v.ident;
            body(quote! { #n::#vi }, &v.fields)
        }
        syn::Data::Union(_) => panic!("union"),
    };
    quote! { impl #g ::core::default::Default for #n #t #w { fn default() -> Self { #b } } }.into()
}
