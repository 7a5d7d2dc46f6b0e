//! `#[wasm_bindgen]` for an ordinary host: exported structs become values of the JavaScript model,
//! imported types become handles on such values, imported methods call into them.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{FnArg, ForeignItem, Item, Pat, ReturnType};

/// `name = value` or bare words of `#[wasm_bindgen(...)]`.
fn option(attrs: &[syn::Attribute], name: &str) -> Option<String> {
    for a in attrs {
        if !a.path().is_ident("wasm_bindgen") {
            continue;
        }
        let t = match &a.meta {
            syn::Meta::List(l) => l.tokens.to_string(),
            _ => continue,
        };
        for o in t.split(',') {
            let mut kv = o.splitn(2, '=');
            if kv.next().map(str::trim) == Some(name) {
                return Some(kv.next().unwrap_or("").trim().trim_matches('"').to_string());
            }
        }
    }
    None
}

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, input: TokenStream) -> TokenStream {
    // methods inside an exported impl carry the attribute too: nothing to add to them
    let Ok(item) = syn::parse::<Item>(input.clone()) else { return input };
    match item {
        Item::Struct(s) => {
            let n = &s.ident;
            quote! {
                #s
                impl From<#n> for ::wasm_bindgen::JsValue {
                    fn from(v: #n) -> Self { ::wasm_bindgen::JsValue::wrap(v) }
                }
            }
            .into()
        }
        Item::ForeignMod(m) => {
            let mut out = quote! {};
            for i in m.items {
                match i {
                    ForeignItem::Type(t) => {
                        let (vis, n) = (&t.vis, &t.ident);
                        out.extend(quote! {
                            #[derive(Clone, Debug)]
                            #[repr(transparent)]
                            #vis struct #n { obj: ::wasm_bindgen::JsValue }
                            impl ::std::ops::Deref for #n {
                                type Target = ::wasm_bindgen::JsValue;
                                fn deref(&self) -> &::wasm_bindgen::JsValue { &self.obj }
                            }
                            impl From<::wasm_bindgen::JsValue> for #n {
                                fn from(obj: ::wasm_bindgen::JsValue) -> Self { #n { obj } }
                            }
                            impl From<#n> for ::wasm_bindgen::JsValue {
                                fn from(v: #n) -> Self { v.obj }
                            }
                            impl AsRef<::wasm_bindgen::JsValue> for #n {
                                fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.obj }
                            }
                            unsafe impl ::wasm_bindgen::JsCast for #n {
                                fn instanceof(v: &::wasm_bindgen::JsValue) -> bool { v.is_object() }
                            }
                        });
                    }
                    ForeignItem::Fn(f) => {
                        let (vis, sig) = (&f.vis, &f.sig);
                        let js = option(&f.attrs, "js_name").unwrap_or_else(|| sig.ident.to_string());
                        let catch = option(&f.attrs, "catch").is_some();
                        let mut this = None;
                        let (mut params, mut args) = (vec![], vec![]);
                        for (k, a) in sig.inputs.iter().enumerate() {
                            let FnArg::Typed(p) = a else { continue };
                            let Pat::Ident(id) = &*p.pat else { continue };
                            if k == 0 && id.ident == "this" {
                                if let syn::Type::Reference(r) = &*p.ty {
                                    this = Some((*r.elem).clone());
                                }
                                continue;
                            }
                            let name = format_ident!("a{}", k);
                            let ty = &p.ty;
                            params.push(quote! { #name: #ty });
                            args.push(quote! { ::wasm_bindgen::JsValue::from(#name) });
                        }
                        let this = this.expect("imported functions are methods");
                        let name = &sig.ident;
                        let asy = sig.asyncness;
                        let ret = match &sig.output {
                            ReturnType::Default => quote! { () },
                            ReturnType::Type(_, t) => quote! { #t },
                        };
                        assert!(asy.is_some() && catch, "an imported method is async and catches");
                        out.extend(quote! {
                            impl #this {
                                #vis async fn #name(&self, #(#params),*) -> #ret {
                                    let v = self.obj.invoke(#js, vec![#(#args),*])?;
                                    let r: ::std::result::Result<::wasm_bindgen::JsValue, ::wasm_bindgen::JsValue> =
                                        ::wasm_bindgen::settle(v).await;
                                    Ok(r?.into())
                                }
                            }
                        });
                    }
                    _ => {}
                }
            }
            out.into()
        }
        // a declaration published to the users of the package: kept where a test can read it
        Item::Const(c) if attr.to_string().contains("typescript_custom_section") => {
            let e = &c.expr;
            quote! {
                #[allow(dead_code)]
                #c
                const _: () = {
                    extern "C" fn publish() { ::wasm_bindgen::publish_typescript(#e) }
                    #[used]
                    #[link_section = ".init_array"]
                    static PUBLISH: extern "C" fn() = publish;
                };
            }
            .into()
        }
        // impl blocks, free functions
        other => quote! { #other }.into(),
    }
}
