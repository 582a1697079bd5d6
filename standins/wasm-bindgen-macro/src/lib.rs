//! Imports from JavaScript become calls of a hook of the harness; of what is exported, structures become values.
use proc_macro::TokenStream;
use quote::quote;
use syn::ext::IdentExt;
use syn::parse::{ParseStream, Parser};
use syn::*;

#[derive(Default)]
struct Options {
    module: Option<String>,
    name: Option<String>,
    namespace: Option<String>,
    catch: bool,
    method: bool,
    getter: Option<Option<String>>,
}
fn options(t: proc_macro2::TokenStream) -> Options {
    let parser = |s: ParseStream| {
        let mut o = Options::default();
        while !s.is_empty() {
            let key = s.call(Ident::parse_any)?.to_string();
            let mut value = None;
            if s.peek(Token![=]) {
                s.parse::<Token![=]>()?;
                value = Some(match s.peek(LitStr) {
                    true => s.parse::<LitStr>()?.value(),
                    false => s.call(Ident::parse_any)?.to_string(),
                })
            }
            match (key.as_str(), value) {
                ("module" | "raw_module", Some(v)) => o.module = Some(v),
                ("inline_js", Some(v)) => o.module = Some(format!("inline:{v}")),
                ("js_name", Some(v)) => o.name = Some(v),
                ("js_namespace", Some(v)) => o.namespace = Some(v),
                ("catch", None) => o.catch = true,
                ("method", None) => o.method = true,
                ("getter", v) => o.getter = Some(v),
                ("typescript_type" | "js_class", Some(_)) | ("final" | "structural", None) => {}
                (k, _) => panic!("{k}: an option of wasm_bindgen that the stand-in does not know"),
            }
            if !s.is_empty() {
                s.parse::<Token![,]>()?;
            }
        }
        Ok(o)
    };
    parser.parse2(t).expect("options of wasm_bindgen")
}
/// The other attributes of an item, and the options that it has.
fn split(all: Vec<Attribute>) -> (Vec<Attribute>, Options) {
    let mut o = Options::default();
    let mut rest = vec![];
    for a in all {
        match a.path.is_ident("wasm_bindgen") {
            true if a.tokens.is_empty() => {}
            true => o = options(a.parse_args().unwrap()),
            false => rest.push(a),
        }
    }
    (rest, o)
}
#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    if let Ok(s) = parse::<ItemStruct>(item.clone()) {
        let (n, text) = (&s.ident, s.ident.to_string());
        return quote! {
            #s
            impl ::std::convert::From<#n> for ::wasm_bindgen::JsValue {
                fn from(_: #n) -> Self { ::wasm_bindgen::JsValue::Other(#text.into()) }
            }
        }
        .into();
    }
    let Ok(block) = parse::<ItemForeignMod>(item.clone()) else { return item };
    let module = options(attr.into()).module;
    let items = block.items.into_iter().map(|i| {
        let f = match i {
            ForeignItem::Fn(f) => f,
            ForeignItem::Type(t) => {
                let (attrs, _) = split(t.attrs);
                let (vis, n) = (t.vis, t.ident);
                return quote! {
                    #(#attrs)*
                    #[derive(Clone, Debug, PartialEq)]
                    #vis struct #n(::wasm_bindgen::JsValue);
                    impl ::std::convert::From<::wasm_bindgen::JsValue> for #n {
                        fn from(v: ::wasm_bindgen::JsValue) -> Self { #n(v) }
                    }
                    impl ::std::convert::From<#n> for ::wasm_bindgen::JsValue {
                        fn from(v: #n) -> Self { v.0 }
                    }
                    impl ::std::ops::Deref for #n {
                        type Target = ::wasm_bindgen::JsValue;
                        fn deref(&self) -> &Self::Target { &self.0 }
                    }
                };
            }
            _ => panic!("an import that is neither function nor type"),
        };
        let (attrs, o) = split(f.attrs);
        let name = o.name.unwrap_or(f.sig.ident.to_string());
        let (vis, sig) = (f.vis, f.sig);
        if o.method {
            let Some(FnArg::Typed(this)) = sig.inputs.first() else { panic!("a method of nothing") };
            let Type::Reference(this) = &*this.ty else { panic!("a method of no reference") };
            let (of, ident, out) = (&this.elem, &sig.ident, &sig.output);
            let Some(get) = o.getter else {
                // the object comes first
                let rest: Vec<_> = sig.inputs.iter().skip(1).collect();
                let pats = rest.iter().map(|a| match a {
                    FnArg::Typed(t) => &t.pat,
                    FnArg::Receiver(_) => panic!("a method"),
                });
                return quote!(impl #of { #(#attrs)* #vis fn #ident(&self, #(#rest),*) #out {
                    ::wasm_bindgen::FromJs::from_js(::wasm_bindgen::call_at_once("method", #name, ::std::vec![::wasm_bindgen::ToJs::to_js(&self.0) #(, ::wasm_bindgen::ToJs::to_js(#pats))*]).expect("an exception that nothing catches"))
                } });
            };
            let name = get.unwrap_or(name);
            return quote!(impl #of { #(#attrs)* #vis fn #ident(&self) #out { ::wasm_bindgen::FromJs::from_js(::wasm_bindgen::get(self, #name)) } });
        }
        let module = o.namespace.or(module.clone()).expect("imports that do not name their module");
        let args = sig.inputs.iter().map(|a| match a {
            FnArg::Typed(t) => &t.pat,
            FnArg::Receiver(_) => panic!("a method"),
        });
        let args = quote!(#module, #name, ::std::vec![#(::wasm_bindgen::ToJs::to_js(#args)),*]);
        let got = match sig.asyncness.is_some() {
            true => quote!(::wasm_bindgen::call(#args).await),
            false => quote!(::wasm_bindgen::call_at_once(#args)),
        };
        let body = match o.catch {
            true => quote!(#got.map(::wasm_bindgen::FromJs::from_js)),
            false => quote!(::wasm_bindgen::FromJs::from_js(#got.expect("an exception that nothing catches"))),
        };
        quote!(#(#attrs)* #vis #sig { #body })
    });
    quote!(#(#items)*).into()
}
