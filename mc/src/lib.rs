#![allow(deprecated)]
pub mod abi;
pub mod engine;
pub mod erc1155ref;
pub mod erc20ref;
pub mod erc721ref;
pub mod host;
pub mod mockrecv;
pub mod mocktok;
pub mod report;
pub mod sig;

pub use alloy_primitives::{Address, B256, U256};
pub use engine::*;
pub use host::{tx, view, with, Code, Log, Out, World};

use tiny_keccak::{Hasher, Keccak};

thread_local! {
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn keccak(b: &[u8]) -> B256 {
    let mut k = Keccak::v256();
    k.update(b);
    let mut o = [0u8; 32];
    k.finalize(&mut o);
    B256::from(o)
}

/// Runs the router of a top-level storage type, like the SDK entry point.
#[macro_export]
macro_rules! native {
    ($t:ty) => {{
        fn run(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
            ::stylus_sdk::abi::router_entrypoint::<$t, $t>(
                input,
                ::stylus_sdk::host::VM(::stylus_sdk::host::WasmVM {}),
            )
        }
        $crate::Code::Native(run)
    }};
}

pub fn addr(n: u8) -> Address {
    let mut b = [0u8; 20];
    b[0] = 0xa0;
    b[19] = n;
    Address::from(b)
}
/// Catches a panic in plain (non-contract) code under check.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(false));
    r
}
