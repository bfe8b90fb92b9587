use proc_macro::TokenStream;

/// Leaves the item as it is: exported functions stay plain Rust functions.
#[proc_macro_attribute]
pub fn wasm_bindgen(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}
