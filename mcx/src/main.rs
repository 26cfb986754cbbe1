//! C37: the example contracts of the repository, compiled from their own
//! sources, explored alone and deployed together.
#![allow(unused_attributes, dead_code, unused_imports, unexpected_cfgs)]
extern crate alloc;
macro_rules! ex {
    ($($m:ident = $p:literal),* $(,)?) => { $(#[path = $p] mod $m;)* };
}
ex! {
    x_access = "/repo/examples/access-control/src/lib.rs",
    x_basic = "/repo/examples/basic/token/src/lib.rs",
    x_ecdsa = "/repo/examples/ecdsa/src/lib.rs",
    x_1155 = "/repo/examples/erc1155/src/lib.rs",
    x_1155_uri = "/repo/examples/erc1155-metadata-uri/src/lib.rs",
    x_1155_supply = "/repo/examples/erc1155-supply/src/lib.rs",
    x_20 = "/repo/examples/erc20/src/lib.rs",
    x_flash = "/repo/examples/erc20-flash-mint/src/lib.rs",
    x_permit = "/repo/examples/erc20-permit/src/lib.rs",
    x_20_wrapper = "/repo/examples/erc20-wrapper/src/lib.rs",
    x_4626 = "/repo/examples/erc4626/src/lib.rs",
    x_721 = "/repo/examples/erc721/src/lib.rs",
    x_consecutive = "/repo/examples/erc721-consecutive/src/lib.rs",
    x_721_meta = "/repo/examples/erc721-metadata/src/lib.rs",
    x_721_wrapper = "/repo/examples/erc721-wrapper/src/lib.rs",
    x_merkle = "/repo/examples/merkle-proofs/src/lib.rs",
    x_ownable = "/repo/examples/ownable/src/lib.rs",
    x_two_step = "/repo/examples/ownable-two-step/src/lib.rs",
    x_poseidon = "/repo/examples/poseidon/src/lib.rs",
    x_safe = "/repo/examples/safe-erc20/src/lib.rs",
    x_vesting = "/repo/examples/vesting-wallet/src/lib.rs",
}
mod alone;
mod together;
use mc::report::Check;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_else(|| "C37".into());
    let mut c = Check::new(&id);
    c.assume("the examples' sources are compiled unchanged for the host machine; only their exported entry symbol is replaced by a function, because 21 of them live in one program");
    c.assume("constructors are the examples' Solidity files: the harness writes the storage they would write");
    let same = c.probe("self-transfer-example", alone::self_transfers(), "erc721 example: mint 1, mint 2, transfer 1 to its owner: the owner enumeration loses a token");
    let callback = c.probe("wrapper-callback-example", together::wrapper_callback(), "erc721-wrapper example: safeTransferFrom of an underlying token into the wrapper is refused");
    alone::run(&mut c, same);
    together::run(&mut c, same, callback);
    c.finish();
}
