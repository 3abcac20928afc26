//! `#[tokio::test]` items are dropped: simulated builds never run unit tests.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn test(_a: TokenStream, _item: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_attribute]
pub fn main(_a: TokenStream, _item: TokenStream) -> TokenStream {
    TokenStream::new()
}
