//! Stand-in: leaves every item as it is; a class becomes a JavaScript value by being put in one.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut tokens = item.clone().into_iter();
    let mut name = None;
    while let Some(t) = tokens.next() {
        if let TokenTree::Ident(i) = t {
            match i.to_string().as_str() {
                "struct" => {
                    name = tokens.next().map(|t| t.to_string());
                    break;
                }
                "impl" | "fn" | "enum" => break,
                _ => {}
            }
        }
    }
    let mut out = item;
    if let Some(name) = name {
        out.extend(
            format!("impl ::core::convert::From<{name}> for ::wasm_bindgen::JsValue {{ fn from(t: {name}) -> Self {{ ::wasm_bindgen::JsValue::of(t) }} }}")
                .parse::<TokenStream>()
                .unwrap(),
        );
    }
    out
}
