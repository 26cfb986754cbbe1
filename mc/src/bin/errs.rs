//! C38: refusals keep their standard encoding through any nesting of error types.
#![allow(deprecated)]
extern crate alloc;
use alloc::vec::Vec;
use mc::abi::*;
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::access::{control, ownable};
use openzeppelin_stylus::finance::vesting_wallet;
use openzeppelin_stylus::token::common::erc2981;
use openzeppelin_stylus::token::erc1155;
use openzeppelin_stylus::token::erc20::{
    self,
    extensions::{capped, erc4626, flash_mint, permit, wrapper as wrapper20},
    utils::safe_erc20,
};
use openzeppelin_stylus::token::erc721::{
    self,
    extensions::{consecutive, enumerable, wrapper as wrapper721},
};
use openzeppelin_stylus::utils::cryptography::ecdsa;
use openzeppelin_stylus::utils::structs::checkpoints;
use openzeppelin_stylus::utils::{nonces, pausable};
use stylus_sdk::prelude::*;
use stylus_sdk::call::MethodError;

/// What a contract of several components declares.
#[derive(SolidityError, Debug)]
pub enum Inner {
    Erc20(erc20::Error),
    Safe20(safe_erc20::Error),
    Capped(capped::Error),
    Flash(flash_mint::Error),
    Permit(permit::Error),
    Wrapper20(wrapper20::Error),
    Vault(erc4626::Error),
    Erc721(erc721::Error),
    Enumerable(enumerable::Error),
    Consecutive(consecutive::Error),
    Wrapper721(wrapper721::Error),
    Erc1155(erc1155::Error),
    Royalty(erc2981::Error),
    Ownable(ownable::Error),
    Control(control::Error),
    Vesting(vesting_wallet::Error),
    Pausable(pausable::Error),
    Nonces(nonces::Error),
    Ecdsa(ecdsa::Error),
    Checkpoints(checkpoints::Error),
}
impl MethodError for Inner {
    fn encode(self) -> Vec<u8> {
        self.into()
    }
}
/// The same again inside another contract's error type.
#[derive(SolidityError, Debug)]
pub enum Outer {
    Inner(Inner),
}

#[derive(Clone, Copy, Debug)]
struct V {
    p: Address,
    q: Address,
    x: U256,
    y: U256,
    z: U256,
}
type Case = (&'static str, fn(V) -> Inner, fn(V) -> Vec<u8>);
fn st(reason: Vec<u8>) -> stylus_sdk::call::Error {
    stylus_sdk::call::Error::Revert(reason)
}
fn why(v: V) -> Vec<u8> {
    [&v.x.to_be_bytes::<32>()[..], &v.p[..]].concat()[..v.y.byte(0) as usize % 53].to_vec()
}
macro_rules! one {
    ($v:ident, $name:literal, $wrap:expr, $sig:literal, [$($arg:expr),*]) => {
        ($name, |$v: V| $wrap, |$v: V| cd($sig, &[$($arg),*]))
    };
}
fn cases() -> Vec<Case> {
    let mut c: Vec<Case> = vec![];
    // errors of a component, directly and inside the extensions that contain it
    macro_rules! family20 {
        ($f:expr) => {{
            c.push(one!(v, "ERC20InsufficientBalance", $f(erc20::Error::InsufficientBalance(erc20::ERC20InsufficientBalance { sender: v.p, balance: v.x, needed: v.y })), "ERC20InsufficientBalance(address,uint256,uint256)", [a(v.p), u(v.x), u(v.y)]));
            c.push(one!(v, "ERC20InvalidSender", $f(erc20::Error::InvalidSender(erc20::ERC20InvalidSender { sender: v.p })), "ERC20InvalidSender(address)", [a(v.p)]));
            c.push(one!(v, "ERC20InvalidReceiver", $f(erc20::Error::InvalidReceiver(erc20::ERC20InvalidReceiver { receiver: v.p })), "ERC20InvalidReceiver(address)", [a(v.p)]));
            c.push(one!(v, "ERC20InsufficientAllowance", $f(erc20::Error::InsufficientAllowance(erc20::ERC20InsufficientAllowance { spender: v.p, allowance: v.x, needed: v.y })), "ERC20InsufficientAllowance(address,uint256,uint256)", [a(v.p), u(v.x), u(v.y)]));
            c.push(one!(v, "ERC20InvalidSpender", $f(erc20::Error::InvalidSpender(erc20::ERC20InvalidSpender { spender: v.p })), "ERC20InvalidSpender(address)", [a(v.p)]));
            c.push(one!(v, "ERC20InvalidApprover", $f(erc20::Error::InvalidApprover(erc20::ERC20InvalidApprover { approver: v.p })), "ERC20InvalidApprover(address)", [a(v.p)]));
        }};
    }
    family20!(Inner::Erc20);
    family20!((|e| Inner::Flash(flash_mint::Error::Erc20(e))));
    family20!((|e| Inner::Permit(permit::Error::Erc20(e))));
    family20!((|e| Inner::Wrapper20(wrapper20::Error::Erc20(e))));
    family20!((|e| Inner::Vault(erc4626::Error::Erc20(e))));
    family20!((|e| Inner::Safe20(safe_erc20::Error::Erc20(e))));
    macro_rules! safe20 {
        ($f:expr) => {{
            family20!((|e| $f(safe_erc20::Error::Erc20(e))));
            c.push(one!(v, "SafeErc20FailedOperation", $f(safe_erc20::Error::SafeErc20FailedOperation(safe_erc20::SafeErc20FailedOperation { token: v.p })), "SafeErc20FailedOperation(address)", [a(v.p)]));
            c.push(one!(v, "SafeErc20FailedDecreaseAllowance", $f(safe_erc20::Error::SafeErc20FailedDecreaseAllowance(safe_erc20::SafeErc20FailedDecreaseAllowance { spender: v.p, current_allowance: v.x, requested_decrease: v.y })), "SafeErc20FailedDecreaseAllowance(address,uint256,uint256)", [a(v.p), u(v.x), u(v.y)]));
        }};
    }
    safe20!(Inner::Safe20);
    safe20!((|e| Inner::Wrapper20(wrapper20::Error::SafeErc20(e))));
    safe20!((|e| Inner::Vault(erc4626::Error::SafeErc20(e))));
    safe20!((|e| Inner::Vesting(vesting_wallet::Error::SafeErc20(e))));
    c.push(one!(v, "ERC20ExceededCap", Inner::Capped(capped::Error::ExceededCap(capped::ERC20ExceededCap { increased_supply: v.x, cap: v.y })), "ERC20ExceededCap(uint256,uint256)", [u(v.x), u(v.y)]));
    c.push(one!(v, "ERC20InvalidCap", Inner::Capped(capped::Error::InvalidCap(capped::ERC20InvalidCap { cap: v.x })), "ERC20InvalidCap(uint256)", [u(v.x)]));
    c.push(one!(v, "ERC3156UnsupportedToken", Inner::Flash(flash_mint::Error::UnsupportedToken(flash_mint::ERC3156UnsupportedToken { token: v.p })), "ERC3156UnsupportedToken(address)", [a(v.p)]));
    c.push(one!(v, "ERC3156ExceededMaxLoan", Inner::Flash(flash_mint::Error::ExceededMaxLoan(flash_mint::ERC3156ExceededMaxLoan { max_loan: v.x })), "ERC3156ExceededMaxLoan(uint256)", [u(v.x)]));
    c.push(one!(v, "ERC3156InvalidReceiver", Inner::Flash(flash_mint::Error::InvalidReceiver(flash_mint::ERC3156InvalidReceiver { receiver: v.p })), "ERC3156InvalidReceiver(address)", [a(v.p)]));
    c.push(one!(v, "ERC2612ExpiredSignature", Inner::Permit(permit::Error::ExpiredSignature(permit::ERC2612ExpiredSignature { deadline: v.x })), "ERC2612ExpiredSignature(uint256)", [u(v.x)]));
    c.push(one!(v, "ERC2612InvalidSigner", Inner::Permit(permit::Error::InvalidSigner(permit::ERC2612InvalidSigner { signer: v.p, owner: v.q })), "ERC2612InvalidSigner(address,address)", [a(v.p), a(v.q)]));
    macro_rules! ec {
        ($f:expr) => {{
            c.push(one!(_v, "ECDSAInvalidSignature", $f(ecdsa::Error::InvalidSignature(ecdsa::ECDSAInvalidSignature {})), "ECDSAInvalidSignature()", []));
            c.push(one!(v, "ECDSAInvalidSignatureS", $f(ecdsa::Error::InvalidSignatureS(ecdsa::ECDSAInvalidSignatureS { s: B256::from(v.x) })), "ECDSAInvalidSignatureS(bytes32)", [u(v.x)]));
        }};
    }
    ec!(Inner::Ecdsa);
    ec!((|e| Inner::Permit(permit::Error::ECDSA(e))));
    c.push(one!(v, "wrapper ERC20InvalidSender", Inner::Wrapper20(wrapper20::Error::InvalidSender(wrapper20::ERC20InvalidSender { sender: v.p })), "ERC20InvalidSender(address)", [a(v.p)]));
    c.push(one!(v, "wrapper ERC20InvalidReceiver", Inner::Wrapper20(wrapper20::Error::InvalidReceiver(wrapper20::ERC20InvalidReceiver { receiver: v.p })), "ERC20InvalidReceiver(address)", [a(v.p)]));
    c.push(one!(v, "ERC20InvalidUnderlying", Inner::Wrapper20(wrapper20::Error::InvalidUnderlying(wrapper20::ERC20InvalidUnderlying { token: v.p })), "ERC20InvalidUnderlying(address)", [a(v.p)]));
    c.push(one!(v, "ERC4626ExceededMaxDeposit", Inner::Vault(erc4626::Error::ExceededMaxDeposit(erc4626::ERC4626ExceededMaxDeposit { receiver: v.p, assets: v.x, max: v.y })), "ERC4626ExceededMaxDeposit(address,uint256,uint256)", [a(v.p), u(v.x), u(v.y)]));
    c.push(one!(v, "ERC4626ExceededMaxMint", Inner::Vault(erc4626::Error::ExceededMaxMint(erc4626::ERC4626ExceededMaxMint { receiver: v.p, shares: v.x, max: v.y })), "ERC4626ExceededMaxMint(address,uint256,uint256)", [a(v.p), u(v.x), u(v.y)]));
    c.push(one!(v, "ERC4626ExceededMaxWithdraw", Inner::Vault(erc4626::Error::ExceededMaxWithdraw(erc4626::ERC4626ExceededMaxWithdraw { owner: v.p, assets: v.x, max: v.y })), "ERC4626ExceededMaxWithdraw(address,uint256,uint256)", [a(v.p), u(v.x), u(v.y)]));
    c.push(one!(v, "ERC4626ExceededMaxRedeem", Inner::Vault(erc4626::Error::ExceededMaxRedeem(erc4626::ERC4626ExceededMaxRedeem { owner: v.p, shares: v.x, max: v.y })), "ERC4626ExceededMaxRedeem(address,uint256,uint256)", [a(v.p), u(v.x), u(v.y)]));
    c.push(one!(v, "InvalidAsset", Inner::Vault(erc4626::Error::InvalidAsset(erc4626::InvalidAsset { asset: v.p })), "InvalidAsset(address)", [a(v.p)]));
    macro_rules! family721 {
        ($f:expr) => {{
            c.push(one!(v, "ERC721InvalidOwner", $f(erc721::Error::InvalidOwner(erc721::ERC721InvalidOwner { owner: v.p })), "ERC721InvalidOwner(address)", [a(v.p)]));
            c.push(one!(v, "ERC721NonexistentToken", $f(erc721::Error::NonexistentToken(erc721::ERC721NonexistentToken { token_id: v.x })), "ERC721NonexistentToken(uint256)", [u(v.x)]));
            c.push(one!(v, "ERC721IncorrectOwner", $f(erc721::Error::IncorrectOwner(erc721::ERC721IncorrectOwner { sender: v.p, token_id: v.x, owner: v.q })), "ERC721IncorrectOwner(address,uint256,address)", [a(v.p), u(v.x), a(v.q)]));
            c.push(one!(v, "ERC721InvalidSender", $f(erc721::Error::InvalidSender(erc721::ERC721InvalidSender { sender: v.p })), "ERC721InvalidSender(address)", [a(v.p)]));
            c.push(one!(v, "ERC721InvalidReceiver", $f(erc721::Error::InvalidReceiver(erc721::ERC721InvalidReceiver { receiver: v.p })), "ERC721InvalidReceiver(address)", [a(v.p)]));
            c.push(("receiver's own reason", |v: V| $f(erc721::Error::InvalidReceiverWithReason(st(why(v)))), why));
            c.push(one!(v, "ERC721InsufficientApproval", $f(erc721::Error::InsufficientApproval(erc721::ERC721InsufficientApproval { operator: v.p, token_id: v.x })), "ERC721InsufficientApproval(address,uint256)", [a(v.p), u(v.x)]));
            c.push(one!(v, "ERC721InvalidApprover", $f(erc721::Error::InvalidApprover(erc721::ERC721InvalidApprover { approver: v.p })), "ERC721InvalidApprover(address)", [a(v.p)]));
            c.push(one!(v, "ERC721InvalidOperator", $f(erc721::Error::InvalidOperator(erc721::ERC721InvalidOperator { operator: v.p })), "ERC721InvalidOperator(address)", [a(v.p)]));
        }};
    }
    family721!(Inner::Erc721);
    family721!((|e| Inner::Consecutive(consecutive::Error::Erc721(e))));
    family721!((|e| Inner::Wrapper721(wrapper721::Error::Erc721(e))));
    c.push(one!(v, "ERC721OutOfBoundsIndex", Inner::Enumerable(enumerable::Error::OutOfBoundsIndex(enumerable::ERC721OutOfBoundsIndex { owner: v.p, index: v.x })), "ERC721OutOfBoundsIndex(address,uint256)", [a(v.p), u(v.x)]));
    c.push(one!(_v, "ERC721EnumerableForbiddenBatchMint", Inner::Enumerable(enumerable::Error::EnumerableForbiddenBatchMint(enumerable::ERC721EnumerableForbiddenBatchMint {})), "ERC721EnumerableForbiddenBatchMint()", []));
    c.push(one!(_v, "CheckpointUnorderedInsertion", Inner::Checkpoints(checkpoints::Error::CheckpointUnorderedInsertion(checkpoints::CheckpointUnorderedInsertion {})), "CheckpointUnorderedInsertion()", []));
    c.push(one!(_v, "CheckpointUnorderedInsertion", Inner::Consecutive(consecutive::Error::Checkpoints(checkpoints::Error::CheckpointUnorderedInsertion(checkpoints::CheckpointUnorderedInsertion {}))), "CheckpointUnorderedInsertion()", []));
    c.push(one!(_v, "ERC721ForbiddenBatchMint", Inner::Consecutive(consecutive::Error::ForbiddenBatchMint(consecutive::ERC721ForbiddenBatchMint {})), "ERC721ForbiddenBatchMint()", []));
    c.push(one!(v, "ERC721ExceededMaxBatchMint", Inner::Consecutive(consecutive::Error::ExceededMaxBatchMint(consecutive::ERC721ExceededMaxBatchMint { batch_size: v.x, max_batch: v.y })), "ERC721ExceededMaxBatchMint(uint256,uint256)", [u(v.x), u(v.y)]));
    c.push(one!(_v, "ERC721ForbiddenMint", Inner::Consecutive(consecutive::Error::ForbiddenMint(consecutive::ERC721ForbiddenMint {})), "ERC721ForbiddenMint()", []));
    c.push(one!(_v, "ERC721ForbiddenBatchBurn", Inner::Consecutive(consecutive::Error::ForbiddenBatchBurn(consecutive::ERC721ForbiddenBatchBurn {})), "ERC721ForbiddenBatchBurn()", []));
    c.push(one!(v, "ERC721UnsupportedToken", Inner::Wrapper721(wrapper721::Error::UnsupportedToken(wrapper721::ERC721UnsupportedToken { token: v.p })), "ERC721UnsupportedToken(address)", [a(v.p)]));
    c.push(one!(v, "Erc721FailedOperation", Inner::Wrapper721(wrapper721::Error::Erc721FailedOperation(wrapper721::Erc721FailedOperation { token: v.p })), "Erc721FailedOperation(address)", [a(v.p)]));
    c.push(("token's own reason", |v: V| Inner::Wrapper721(wrapper721::Error::Erc721FailedOperationWithReason(st(why(v)))), why));
    c.push(one!(v, "ERC1155InsufficientBalance", Inner::Erc1155(erc1155::Error::InsufficientBalance(erc1155::ERC1155InsufficientBalance { sender: v.p, balance: v.x, needed: v.y, token_id: v.z })), "ERC1155InsufficientBalance(address,uint256,uint256,uint256)", [a(v.p), u(v.x), u(v.y), u(v.z)]));
    c.push(one!(v, "ERC1155InvalidSender", Inner::Erc1155(erc1155::Error::InvalidSender(erc1155::ERC1155InvalidSender { sender: v.p })), "ERC1155InvalidSender(address)", [a(v.p)]));
    c.push(one!(v, "ERC1155InvalidReceiver", Inner::Erc1155(erc1155::Error::InvalidReceiver(erc1155::ERC1155InvalidReceiver { receiver: v.p })), "ERC1155InvalidReceiver(address)", [a(v.p)]));
    c.push(("receiver's own reason", |v: V| Inner::Erc1155(erc1155::Error::InvalidReceiverWithReason(st(why(v)))), why));
    c.push(one!(v, "ERC1155MissingApprovalForAll", Inner::Erc1155(erc1155::Error::MissingApprovalForAll(erc1155::ERC1155MissingApprovalForAll { operator: v.p, owner: v.q })), "ERC1155MissingApprovalForAll(address,address)", [a(v.p), a(v.q)]));
    c.push(one!(v, "ERC1155InvalidApprover", Inner::Erc1155(erc1155::Error::InvalidApprover(erc1155::ERC1155InvalidApprover { approver: v.p })), "ERC1155InvalidApprover(address)", [a(v.p)]));
    c.push(one!(v, "ERC1155InvalidOperator", Inner::Erc1155(erc1155::Error::InvalidOperator(erc1155::ERC1155InvalidOperator { operator: v.p })), "ERC1155InvalidOperator(address)", [a(v.p)]));
    c.push(one!(v, "ERC1155InvalidArrayLength", Inner::Erc1155(erc1155::Error::InvalidArrayLength(erc1155::ERC1155InvalidArrayLength { ids_length: v.x, values_length: v.y })), "ERC1155InvalidArrayLength(uint256,uint256)", [u(v.x), u(v.y)]));
    c.push(one!(v, "ERC2981InvalidDefaultRoyalty", Inner::Royalty(erc2981::Error::InvalidDefaultRoyalty(erc2981::ERC2981InvalidDefaultRoyalty { numerator: v.x, denominator: v.y })), "ERC2981InvalidDefaultRoyalty(uint256,uint256)", [u(v.x), u(v.y)]));
    c.push(one!(v, "ERC2981InvalidDefaultRoyaltyReceiver", Inner::Royalty(erc2981::Error::InvalidDefaultRoyaltyReceiver(erc2981::ERC2981InvalidDefaultRoyaltyReceiver { receiver: v.p })), "ERC2981InvalidDefaultRoyaltyReceiver(address)", [a(v.p)]));
    c.push(one!(v, "ERC2981InvalidTokenRoyalty", Inner::Royalty(erc2981::Error::InvalidTokenRoyalty(erc2981::ERC2981InvalidTokenRoyalty { token_id: v.x, numerator: v.y, denominator: v.z })), "ERC2981InvalidTokenRoyalty(uint256,uint256,uint256)", [u(v.x), u(v.y), u(v.z)]));
    c.push(one!(v, "ERC2981InvalidTokenRoyaltyReceiver", Inner::Royalty(erc2981::Error::InvalidTokenRoyaltyReceiver(erc2981::ERC2981InvalidTokenRoyaltyReceiver { token_id: v.x, receiver: v.p })), "ERC2981InvalidTokenRoyaltyReceiver(uint256,address)", [u(v.x), a(v.p)]));
    macro_rules! own {
        ($f:expr) => {{
            c.push(one!(v, "OwnableUnauthorizedAccount", $f(ownable::Error::UnauthorizedAccount(ownable::OwnableUnauthorizedAccount { account: v.p })), "OwnableUnauthorizedAccount(address)", [a(v.p)]));
            c.push(one!(v, "OwnableInvalidOwner", $f(ownable::Error::InvalidOwner(ownable::OwnableInvalidOwner { owner: v.p })), "OwnableInvalidOwner(address)", [a(v.p)]));
        }};
    }
    own!(Inner::Ownable);
    own!((|e| Inner::Vesting(vesting_wallet::Error::Ownable(e))));
    c.push(("payee's own reason", |v: V| Inner::Vesting(vesting_wallet::Error::ReleaseEtherFailed(st(why(v)))), why));
    c.push(one!(v, "InvalidToken", Inner::Vesting(vesting_wallet::Error::InvalidToken(vesting_wallet::InvalidToken { token: v.p })), "InvalidToken(address)", [a(v.p)]));
    c.push(one!(v, "AccessControlUnauthorizedAccount", Inner::Control(control::Error::UnauthorizedAccount(control::AccessControlUnauthorizedAccount { account: v.p, needed_role: B256::from(v.x) })), "AccessControlUnauthorizedAccount(address,bytes32)", [a(v.p), u(v.x)]));
    c.push(one!(_v, "AccessControlBadConfirmation", Inner::Control(control::Error::BadConfirmation(control::AccessControlBadConfirmation {})), "AccessControlBadConfirmation()", []));
    c.push(one!(_v, "EnforcedPause", Inner::Pausable(pausable::Error::EnforcedPause(pausable::EnforcedPause {})), "EnforcedPause()", []));
    c.push(one!(_v, "ExpectedPause", Inner::Pausable(pausable::Error::ExpectedPause(pausable::ExpectedPause {})), "ExpectedPause()", []));
    c.push(one!(v, "InvalidAccountNonce", Inner::Nonces(nonces::Error::InvalidAccountNonce(nonces::InvalidAccountNonce { account: v.p, current_nonce: v.x })), "InvalidAccountNonce(address,uint256)", [a(v.p), u(v.x)]));
    c
}
/// The bytes of the component's own error type, without any contract around it.
fn alone(e: Inner) -> Vec<u8> {
    match e {
        Inner::Erc20(e) => e.into(),
        Inner::Safe20(e) => e.into(),
        Inner::Capped(e) => e.into(),
        Inner::Flash(e) => e.into(),
        Inner::Permit(e) => e.into(),
        Inner::Wrapper20(e) => e.into(),
        Inner::Vault(e) => e.into(),
        Inner::Erc721(e) => e.into(),
        Inner::Enumerable(e) => e.into(),
        Inner::Consecutive(e) => e.into(),
        Inner::Wrapper721(e) => e.into(),
        Inner::Erc1155(e) => e.into(),
        Inner::Royalty(e) => e.into(),
        Inner::Ownable(e) => e.into(),
        Inner::Control(e) => e.into(),
        Inner::Vesting(e) => e.into(),
        Inner::Pausable(e) => e.into(),
        Inner::Nonces(e) => e.into(),
        Inner::Ecdsa(e) => e.into(),
        Inner::Checkpoints(e) => e.into(),
    }
}

/// A contract that refuses with the chosen error, once or twice nested.
#[storage]
pub struct Thrower {}
#[public]
impl Thrower {
    fn once(&mut self, k: U256, p: Address, q: Address, x: U256, y: U256, z: U256) -> Result<(), Inner> {
        Err(cases()[k.to::<usize>()].1(V { p, q, x, y, z }))
    }
    fn twice(&mut self, k: U256, p: Address, q: Address, x: U256, y: U256, z: U256) -> Result<U256, Outer> {
        Err(cases()[k.to::<usize>()].1(V { p, q, x, y, z }))?
    }
}
unsafe impl TopLevelStorage for Thrower {}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_else(|| "C38".into());
    let mut c = Check::new(&id);
    let cs = cases();
    let ps = [Address::ZERO, addr(1), Address::repeat_byte(0xff)];
    let xs: Vec<U256> = c.q(vec![U256::ZERO, U256::from(1), U256::MAX], (0..32).map(|k| U256::from(1) << (8 * k)).chain([U256::ZERO, U256::from(52), U256::MAX]).collect());
    let mut items = vec![];
    for k in 0..cs.len() {
        for p in ps {
            for q in [addr(2), Address::ZERO] {
                for &x in &xs {
                    for &y in &xs {
                        for z in [U256::from(7), U256::MAX] {
                            items.push((k, V { p, q, x, y, z }));
                        }
                    }
                }
            }
        }
    }
    c.enumerate(
        &format!("{} errors of 20 components", cs.len()),
        "every error of every component, also inside the extensions that contain it, all combinations of boundary fields; alone, nested in a contract's error type, nested twice; returned by a called contract",
        &items,
        |(k, v)| {
            let (name, mk, want) = cs[*k];
            let want = want(*v);
            let same = |how: &str, got: Vec<u8>| if got == want { Ok(()) } else { Err(format!("{name} {how}: {got:02x?} instead of {want:02x?}")) };
            same("alone", alone(mk(*v)))?;
            same("in a contract's error type", mk(*v).into())?;
            same("nested twice", Outer::Inner(mk(*v)).into())?;
            let args = [u(U256::from(*k)), a(v.p), a(v.q), u(v.x), u(v.y), u(v.z)];
            for f in ["once", "twice"] {
                let (t, caller) = (addr(0x77), addr(9));
                let mut wd = World::default();
                wd.acct(t).code = native!(Thrower);
                with(|vm| vm.world = wd);
                let o = tx(caller, t, U256::ZERO, cd(&format!("{f}(uint256,address,address,uint256,uint256,uint256)"), &args));
                if o.ok {
                    return Err(format!("{name}: the refusing call succeeded"));
                }
                same(&format!("returned by a contract ({f})"), o.data)?;
            }
            Ok(true)
        },
    );
    c.finish();
}
