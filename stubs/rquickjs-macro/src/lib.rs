//! `#[rquickjs::function]`: the function itself and a value `js_<name>` to set as a property.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn function(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut last_fn = false;
    for t in item.clone() {
        if let TokenTree::Ident(i) = t {
            if last_fn {
                name = Some(i.to_string());
                break;
            }
            last_fn = i.to_string() == "fn";
        }
    }
    let name = name.expect("a function");
    let more: TokenStream = format!(
        "#[allow(non_camel_case_types)] struct js_{name};
         impl<'js> ::rquickjs::IntoJs<'js> for js_{name} {{
            fn into_js(self, ctx: &::rquickjs::Ctx<'js>) -> ::rquickjs::Result<::rquickjs::Value<'js>> {{
                let _ = {name};
                ::rquickjs::native(ctx)
            }}
         }}"
    )
    .parse()
    .unwrap();
    item.into_iter().chain(more).collect()
}
