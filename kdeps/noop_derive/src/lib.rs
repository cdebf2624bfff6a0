//! Derives that add nothing the verified code depends on: serde's are empty, `Fail` is a marker.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Serialize, attributes(serde))]
pub fn ser(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn de(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Fail, attributes(fail, cause))]
pub fn fail(ts: TokenStream) -> TokenStream {
    let mut it = ts.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if s == "struct" || s == "enum" {
                let name = it.next().unwrap();
                return format!("impl ::failure::Fail for {} {{}}", name).parse().unwrap();
            }
        }
    }
    panic!("Fail: no type name")
}
