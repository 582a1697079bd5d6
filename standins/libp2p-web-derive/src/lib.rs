//! A behaviour is made of its fields, each of which takes its turn.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

#[proc_macro_derive(NetworkBehaviour, attributes(behaviour))]
pub fn behaviour(item: TokenStream) -> TokenStream {
    let s = parse::<ItemStruct>(item).unwrap();
    let (n, fields) = (&s.ident, s.fields.iter().map(|f| &f.ident));
    quote! {
        impl ::libp2p::swarm::NetworkBehaviour for #n {
            fn drive<'a>(&'a mut self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = bool> + 'a>> {
                ::std::boxed::Box::pin(async move {
                    #(if let ::std::option::Option::Some(e) = ::libp2p::swarm::Part::turn(&mut self.#fields).await {
                        ::libp2p::swarm::NetworkBehaviourEventProcess::inject_event(self, e);
                        return true;
                    })*
                    false
                })
            }
        }
    }
    .into()
}
