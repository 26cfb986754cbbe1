use proc_macro::{TokenStream, TokenTree};
/// What the SDK's `#[entrypoint]` generates, as a function instead of the
/// exported symbol.
#[proc_macro_attribute]
pub fn entrypoint(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut it = item.clone().into_iter();
    while let Some(t) = it.next() {
        if matches!(&t, TokenTree::Ident(i) if i.to_string() == "struct") {
            name = it.next();
            break;
        }
    }
    let name = name.expect("entrypoint struct").to_string();
    let add: TokenStream = format!(
        "unsafe impl stylus_sdk::stylus_core::storage::TopLevelStorage for {name} {{}}
         pub fn run(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {{
             stylus_sdk::abi::router_entrypoint::<{name}, {name}>(input, stylus_sdk::host::VM(stylus_sdk::host::WasmVM {{}}))
         }}
         const _: () = {{ <{name}>::__stylus_assert_overrides(); }};"
    )
    .parse()
    .unwrap();
    [item, add].into_iter().collect()
}
