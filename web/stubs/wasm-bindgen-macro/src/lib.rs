//! Stand-in for the `wasm_bindgen` attribute: leaves the code as is, other than the declarations of
//! imported functions, which get a body that reports the call.

use proc_macro::TokenStream;
use quote::quote;
use syn::{FnArg, ForeignItem, Item, Pat, ReturnType};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let original = item.clone();
    let Ok(Item::ForeignMod(module)) = syn::parse::<Item>(item) else {
        return original;
    };
    let mut out = quote!();
    for item in module.items {
        let ForeignItem::Fn(f) = item else { continue };
        let vis = f.vis;
        let sig = f.sig;
        let name = sig.ident.to_string();
        let args = sig.inputs.iter().filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.clone()),
                _ => None,
            },
            FnArg::Receiver(_) => None,
        });
        let ret = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(..) => quote!(unimplemented!()),
        };
        out.extend(quote! {
            #vis #sig {
                ::wasm_bindgen::sim::imported(#name, &[#(&::std::format!("{}", #args)),*]);
                #ret
            }
        });
    }
    out.into()
}
