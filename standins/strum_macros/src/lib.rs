use quote::quote;
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: syn::DeriveInput = syn::parse(i).unwrap();
    let n = &d.ident;
    let syn::Data::Enum(e) = &d.data else { panic!("enum expected") };
    let arms = e.variants.iter().map(|v| {
        let v = &v.ident;
        let s = v.to_string();
        quote! { #s => Ok(#n::#v), }
    });
    quote! {
        impl ::core::str::FromStr for #n {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
                match s { #(#arms)* _ => Err(::strum::ParseError::VariantNotFound) }
            }
        }
    }
    .into()
}
