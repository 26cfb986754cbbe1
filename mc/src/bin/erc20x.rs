//! C03 (flash mint), C04 (permit).
extern crate alloc;
use alloy_primitives::{Address, B256, U256};
use mc::abi::*;
use mc::erc20ref::*;
use mc::host;
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::token::erc20::{
    self,
    extensions::{flash_mint, permit, Erc20FlashMint, Erc20Permit, IErc3156FlashLender},
    Erc20,
};
use openzeppelin_stylus::utils::{cryptography::eip712::IEip712, nonces::Nonces};
use std::collections::BTreeMap;
use stylus_sdk::{abi::Bytes, prelude::*};

const TOKEN: Address = Address::new([0x70; 20]);
const OTHER: Address = Address::new([0x71; 20]);

// ------------------------------------------------------------ flash mint
#[storage]
struct Fm {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    flash: Erc20FlashMint,
}
unsafe impl TopLevelStorage for Fm {}
#[public]
#[inherit(Erc20)]
impl Fm {
    fn mint(&mut self, to: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, v)
    }
    fn max_flash_loan(&self, token: Address) -> U256 {
        self.flash.max_flash_loan(token, &self.erc20)
    }
    fn flash_fee(&self, token: Address, v: U256) -> Result<U256, flash_mint::Error> {
        self.flash.flash_fee(token, v)
    }
    fn flash_loan(&mut self, receiver: Address, token: Address, v: U256, data: Bytes) -> Result<bool, flash_mint::Error> {
        self.flash.flash_loan(receiver, token, v, data, &mut self.erc20)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Appr {
    None,
    Exact,
    Less,
    Max,
    ValueOnly,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Keep,
    SendOne,
    SendAll,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ret {
    Good,
    Wrong,
    Empty,
    Short,
    Revert,
    RevertGood,
}
const APPR: [Appr; 5] = [Appr::Exact, Appr::None, Appr::Less, Appr::Max, Appr::ValueOnly];
const ACT: [Act; 3] = [Act::Keep, Act::SendOne, Act::SendAll];
const RET: [Ret; 6] = [Ret::Good, Ret::Wrong, Ret::Empty, Ret::Short, Ret::Revert, Ret::RevertGood];

fn good_value() -> B256 {
    keccak(b"ERC3156FlashBorrower.onFlashLoan")
}

/// The borrower's behaviour is scripted by the loan's data bytes.
fn borrower(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    if input.len() < 4 || input[..4] != selector("onFlashLoan(address,address,uint256,uint256,bytes)") {
        return Err(vec![]);
    }
    let d = &input[4..];
    let token = host::caller();
    let value = word_at(d, 2).unwrap();
    let fee = word_at(d, 3).unwrap();
    let off: usize = word_at(d, 4).unwrap().to();
    let script = &d[off + 32..];
    let (ap, ac, re) = (APPR[script[0] as usize], ACT[script[1] as usize], RET[script[2] as usize]);
    let amt = match ap {
        Appr::None => None,
        Appr::Exact => Some(value.wrapping_add(fee)),
        Appr::Less => Some(value.wrapping_add(fee).saturating_sub(U256::from(1))),
        Appr::Max => Some(U256::MAX),
        Appr::ValueOnly => Some(value),
    };
    if let Some(v) = amt {
        host::sub_call(token, U256::ZERO, cd("approve(address,uint256)", &[a(token), u(v)]));
    }
    let send = match ac {
        Act::Keep => None,
        Act::SendOne => Some(U256::from(1)),
        Act::SendAll => Some(value),
    };
    if let Some(v) = send {
        host::sub_call(token, U256::ZERO, cd("transfer(address,uint256)", &[a(addr(9)), u(v)]));
    }
    match re {
        Ret::Good => Ok(good_value().0.to_vec()),
        Ret::Wrong => {
            let mut x = good_value().0;
            x[31] ^= 1;
            Ok(x.to_vec())
        }
        Ret::Empty => Ok(vec![]),
        Ret::Short => Ok(good_value().0[..31].to_vec()),
        Ret::Revert => Err(vec![1, 2, 3, 4]),
        Ret::RevertGood => Err(good_value().0.to_vec()),
    }
}

#[derive(Clone, Debug)]
enum FOp {
    Mint(Address, U256),
    Transfer(Address, Address, U256),
    Approve(Address, Address, U256),
    Loan { by: Address, to: Address, token: Address, value: U256, ap: usize, ac: usize, re: usize, pad: usize },
}
struct Flash {
    fee: U256,
    fee_to: Address,
    premint: U256,
    values: Vec<U256>,
    mint: Vec<U256>,
}
const BOR: Address = Address::new([0xb0; 20]);
fn script(ap: usize, ac: usize, re: usize, pad: usize) -> Vec<u8> {
    let mut v = vec![ap as u8, ac as u8, re as u8];
    v.extend((0..pad).map(|i| 0xe0 ^ (i as u8)));
    v
}

impl System for Flash {
    type Model = M20;
    type Op = FOp;
    fn init(&self) -> (World, M20) {
        let mut w = World::default();
        w.acct(TOKEN).code = native!(Fm);
        w.acct(BOR).code = Code::Native(borrower);
        w.set_slot(TOKEN, 3, self.fee);
        w.set_slot(TOKEN, 4, U256::from_be_bytes(self.fee_to.into_word().0));
        let mut m = M20::new(TOKEN);
        with(|vm| vm.world = w);
        if !self.premint.is_zero() {
            tx(addr(99), TOKEN, U256::ZERO, cd("mint(address,uint256)", &[a(addr(1)), u(self.premint)]));
            let _ = m.mint(addr(1), self.premint);
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn ops(&self, _: &M20) -> Vec<FOp> {
        let mut o = vec![];
        let e = addr(1);
        for v in &self.mint {
            o.push(FOp::Mint(BOR, *v));
            o.push(FOp::Transfer(e, BOR, *v));
            o.push(FOp::Approve(BOR, TOKEN, *v));
        }
        o.push(FOp::Approve(BOR, e, U256::MAX));
        for v in &self.values {
            for (to, token) in [(BOR, TOKEN), (e, TOKEN), (BOR, OTHER), (Address::ZERO, TOKEN), (e, OTHER), (TOKEN, TOKEN), (BOR, Address::ZERO), (BOR, BOR)] {
                for ap in 0..APPR.len() {
                    for ac in 0..ACT.len() {
                        for re in 0..RET.len() {
                            if (to != BOR || token != TOKEN) && (ap, ac, re) != (0, 0, 0) {
                                continue;
                            }
                            if re > 0 && ac > 0 {
                                continue;
                            }
                            o.push(FOp::Loan { by: e, to, token, value: *v, ap, ac, re, pad: 0 });
                        }
                    }
                }
            }
        }
        o.push(FOp::Loan { by: BOR, to: BOR, token: TOKEN, value: U256::from(1), ap: 0, ac: 0, re: 0, pad: 0 });
        o
    }
    fn apply(&self, m: &mut M20, op: &FOp) -> Result<bool, String> {
        let name = format!("{op:?}");
        match *op {
            FOp::Mint(t, v) => {
                let st = m.mint(t, v);
                step(&name, addr(99), TOKEN, cd("mint(address,uint256)", &[a(t), u(v)]), &expect(&st, vec![]))?;
                Ok(st.is_ok())
            }
            FOp::Transfer(c, t, v) => {
                let st = m.transfer(c, t, v);
                step(&name, c, TOKEN, cd("transfer(address,uint256)", &[a(t), u(v)]), &expect(&st, ret_true()))?;
                Ok(st.is_ok())
            }
            FOp::Approve(c, t, v) => {
                let st = m.approve(c, t, v);
                step(&name, c, TOKEN, cd("approve(address,uint256)", &[a(t), u(v)]), &expect(&st, ret_true()))?;
                Ok(st.is_ok())
            }
            FOp::Loan { by, to, token, value, ap, ac, re, pad } => {
                let save = m.clone();
                let mut cb: Option<Vec<u8>> = None;
                let script = script(ap, ac, re, pad);
                let st = self.loan(m, by, to, token, value, ap, ac, re, &script, &mut cb);
                if st.is_err() {
                    *m = save;
                }
                let data = cd("flashLoan(address,address,uint256,bytes)", &[a(to), a(token), u(value), bytes(&script)]);
                step(&name, by, TOKEN, data, &expect(&st, ret_true()))?;
                // the borrower is called exactly once with the true arguments
                let got: Vec<Vec<u8>> =
                    with(|vm| vm.calls.iter().filter(|c| c.depth == 1 && c.to == to).map(|c| c.data.clone()).collect());
                if st.is_ok() && got != vec![cb.clone().unwrap()] {
                    return Err(format!("{name}: borrower callback {:?} instead of {}", got.iter().map(|x| show(x)).collect::<Vec<_>>(), show(&cb.unwrap())));
                }
                Ok(st.is_ok())
            }
        }
    }
    fn check(&self, m: &M20) -> Result<(), String> {
        m.check_views(&[addr(1), BOR, addr(9), TOKEN, self.fee_to])?;
        must_view("maxFlashLoan", addr(1), TOKEN, cd("maxFlashLoan(address)", &[a(TOKEN)]), &enc(&[u(U256::MAX - m.supply)]))?;
        must_view("maxFlashLoan other", addr(1), TOKEN, cd("maxFlashLoan(address)", &[a(OTHER)]), &enc(&[u(U256::ZERO)]))?;
        for v in [U256::ZERO, U256::from(7), U256::MAX] {
            must_view("flashFee", addr(1), TOKEN, cd("flashFee(address,uint256)", &[a(TOKEN), u(v)]), &enc(&[u(self.fee)]))?;
            must_fail_view("flashFee other", addr(1), TOKEN, cd("flashFee(address,uint256)", &[a(OTHER), u(v)]), &[cd("ERC3156UnsupportedToken(address)", &[a(OTHER)])])?;
        }
        Ok(())
    }
}
impl Flash {
    #[allow(clippy::too_many_arguments)]
    fn loan(&self, m: &mut M20, by: Address, to: Address, token: Address, value: U256, ap: usize, ac: usize, re: usize, script: &[u8], cb: &mut Option<Vec<u8>>) -> Step {
        let max = if token == TOKEN { U256::MAX - m.supply } else { U256::ZERO };
        let mut e = vec![];
        if value > max {
            e.push(cd("ERC3156ExceededMaxLoan(uint256)", &[u(max)]));
        }
        if token != TOKEN {
            e.push(cd("ERC3156UnsupportedToken(address)", &[a(token)]));
        }
        let invalid = cd("ERC3156InvalidReceiver(address)", &[a(to)]);
        if to != BOR {
            e.push(invalid.clone());
        }
        if !e.is_empty() {
            return Err(e);
        }
        let mut logs = m.mint(to, value)?;
        *cb = Some(cd(
            "onFlashLoan(address,address,uint256,uint256,bytes)",
            &[a(by), a(token), u(value), u(self.fee), bytes(script)],
        ));
        if RET[re] != Ret::Good {
            return Err(vec![invalid]);
        }
        let one = U256::from(1);
        let amt = match APPR[ap] {
            Appr::None => None,
            Appr::Exact => Some(value.wrapping_add(self.fee)),
            Appr::Less => Some(value.wrapping_add(self.fee).saturating_sub(one)),
            Appr::Max => Some(U256::MAX),
            Appr::ValueOnly => Some(value),
        };
        if let Some(v) = amt {
            logs.extend(m.approve(BOR, TOKEN, v)?);
        }
        let send = match ACT[ac] {
            Act::Keep => None,
            Act::SendOne => Some(one),
            Act::SendAll => Some(value),
        };
        if let Some(v) = send {
            if let Ok(l) = m.transfer(BOR, addr(9), v) {
                logs.extend(l);
            }
        }
        let Some(total) = value.checked_add(self.fee) else { return Err(vec![]) };
        let r1 = m.spend(BOR, TOKEN, total);
        let r2 = if self.fee.is_zero() || self.fee_to.is_zero() {
            m.burn(BOR, total)
        } else {
            match m.burn(BOR, value) {
                Ok(mut l) => m.transfer(BOR, self.fee_to, self.fee).map(|x| {
                    l.extend(x);
                    l
                }),
                Err(e) => Err(e),
            }
        };
        match (r1, r2) {
            (Ok(x), Ok(y)) => {
                logs.extend(x);
                logs.extend(y);
                Ok(logs)
            }
            (r1, r2) => Err(merge(r1, r2)),
        }
    }
}

// ------------------------------------------------------------ permit
#[storage]
struct Dom;
impl IEip712 for Dom {
    const NAME: &'static str = "Permit Token";
    const VERSION: &'static str = "1";
}
#[storage]
struct Pm {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    nonces: Nonces,
    #[borrow]
    permit: Erc20Permit<Dom>,
}
unsafe impl TopLevelStorage for Pm {}
#[public]
#[inherit(Erc20, Nonces, Erc20Permit<Dom>)]
impl Pm {
    fn mint(&mut self, to: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, v)
    }
    #[allow(clippy::too_many_arguments)]
    fn permit(&mut self, owner: Address, spender: Address, value: U256, deadline: U256, v: u8, r: B256, s: B256) -> Result<(), permit::Error> {
        self.permit.permit(owner, spender, value, deadline, v, r, s, &mut self.erc20, &mut self.nonces)
    }
}

/// How the signature deviates from the submitted permit.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tamper {
    No,
    OtherSigner,
    OwnerField,
    SpenderField,
    ValueField,
    DeadlineField,
    NonceNext,
    NoncePrev,
    Chain,
    Contract,
    Name,
    Version,
    TypeHash,
    FlipV,
    V(u8),
    HighS,
    ZeroR,
    ZeroS,
    RIsN,
    MaxS,
    SwapRS,
}
const TAMPERS: [Tamper; 24] = [
    Tamper::No, Tamper::OtherSigner, Tamper::OwnerField, Tamper::SpenderField, Tamper::ValueField, Tamper::DeadlineField, Tamper::NonceNext,
    Tamper::NoncePrev, Tamper::Chain, Tamper::Contract, Tamper::Name, Tamper::Version, Tamper::TypeHash, Tamper::FlipV, Tamper::V(0),
    Tamper::V(1), Tamper::V(2), Tamper::V(29), Tamper::V(255), Tamper::HighS, Tamper::ZeroR, Tamper::ZeroS, Tamper::RIsN, Tamper::SwapRS,
];

#[derive(Clone, Debug)]
enum POp {
    Permit { by: Address, owner: u8, spender: Address, value: U256, deadline: i64, t: Tamper },
    ZeroOwner { spender: Address },
    Approve(Address, Address, U256),
    TransferFrom(Address, Address, Address, U256),
    Tick,
    Fork,
}
#[derive(Clone, Hash)]
struct PM {
    t: M20,
    nonce: BTreeMap<Address, u64>,
    now: u64,
    chain: u64,
}
struct Permits {
    values: Vec<U256>,
    deadlines: Vec<i64>,
    spenders: Vec<Address>,
    owners: Vec<u8>,
    tampers: Vec<Tamper>,
    ticks: bool,
}
const CHAIN: u64 = 412_346;
const NOW: u64 = 1000;

fn struct_hash(th: &str, owner: Address, spender: Address, value: U256, nonce: U256, deadline: U256) -> B256 {
    let mut p = keccak(th.as_bytes()).0.to_vec();
    p.extend(enc(&[a(owner), a(spender), u(value), u(nonce), u(deadline)]));
    keccak(&p)
}
const PERMIT_T: &str = "Permit(address owner,address spender,uint256 value,uint256 nonce,uint256 deadline)";

impl System for Permits {
    type Model = PM;
    type Op = POp;
    fn init(&self) -> (World, PM) {
        let mut w = World { chain_id: CHAIN, timestamp: NOW, ..Default::default() };
        w.acct(TOKEN).code = native!(Pm);
        with(|vm| vm.world = w);
        let mut t = M20::new(TOKEN);
        for o in [1u8, 2] {
            let ow = sig::key_addr(o);
            tx(addr(99), TOKEN, U256::ZERO, cd("mint(address,uint256)", &[a(ow), u(U256::from(10))]));
            let _ = t.mint(ow, U256::from(10));
        }
        (with(|vm| vm.world.clone()), PM { t, nonce: BTreeMap::new(), now: NOW, chain: CHAIN })
    }
    fn ops(&self, _: &PM) -> Vec<POp> {
        let mut o = vec![];
        for &owner in &self.owners {
            for &spender in &self.spenders {
                for &value in &self.values {
                    for &deadline in &self.deadlines {
                        for &t in &self.tampers {
                            o.push(POp::Permit { by: addr(50), owner, spender, value, deadline, t });
                        }
                    }
                }
            }
        }
        o.push(POp::Permit { by: sig::key_addr(1), owner: 1, spender: addr(7), value: U256::from(4), deadline: 5, t: Tamper::No });
        o.push(POp::ZeroOwner { spender: addr(7) });
        o.push(POp::Approve(sig::key_addr(1), addr(7), U256::from(2)));
        o.push(POp::TransferFrom(addr(7), sig::key_addr(1), sig::key_addr(2), U256::from(3)));
        if self.ticks {
            o.push(POp::Tick);
            o.push(POp::Fork);
        }
        o
    }
    fn kind(&self, op: &POp) -> String {
        match op {
            POp::Permit { t, .. } => format!("Permit/{t:?}"),
            o => format!("{o:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(),
        }
    }
    fn apply(&self, m: &mut PM, op: &POp) -> Result<bool, String> {
        let name = format!("{op:?}");
        match op.clone() {
            POp::Tick => {
                m.now += 1;
                with(|vm| vm.world.timestamp += 1);
                Ok(true)
            }
            POp::Fork => {
                m.chain = CHAIN + CHAIN + 1 - m.chain;
                with(|vm| vm.world.chain_id = m.chain);
                Ok(true)
            }
            POp::Approve(c, s, v) => {
                let st = m.t.approve(c, s, v);
                step(&name, c, TOKEN, cd("approve(address,uint256)", &[a(s), u(v)]), &expect(&st, ret_true()))?;
                Ok(st.is_ok())
            }
            POp::TransferFrom(c, f, t, v) => {
                let st = m.t.transfer_from(c, f, t, v);
                step(&name, c, TOKEN, cd("transferFrom(address,address,uint256)", &[a(f), a(t), u(v)]), &expect(&st, ret_true()))?;
                Ok(st.is_ok())
            }
            POp::ZeroOwner { spender } => {
                // owner zero with a garbage signature that recovers to nobody
                let sg = (29u8, B256::repeat_byte(1), B256::repeat_byte(1));
                let args = [a(Address::ZERO), a(spender), w(1u64), u(U256::MAX), w(sg.0 as u64), b32(sg.1), b32(sg.2)];
                step(
                    &name,
                    addr(50),
                    TOKEN,
                    cd("permit(address,address,uint256,uint256,uint8,bytes32,bytes32)", &args),
                    &Expect::Err(vec![cd("ECDSAInvalidSignature()", &[]), cd("ERC20InvalidApprover(address)", &[a(Address::ZERO)])]),
                )?;
                Ok(false)
            }
            POp::Permit { by, owner, spender, value, deadline, t } => {
                let ow = sig::key_addr(owner);
                let dl = if deadline == i64::MAX { U256::MAX } else { U256::from((NOW as i64 + deadline) as u64) };
                let nonce = U256::from(*m.nonce.get(&ow).unwrap_or(&0));
                // what was signed
                let (mut s_owner, mut s_spender, mut s_value, mut s_dl, mut s_nonce) = (ow, spender, value, dl, nonce);
                let (mut chain, mut me, mut nm, mut ver, mut th) = (m.chain, TOKEN, "Permit Token", "1", PERMIT_T);
                let mut signer = owner;
                let one = U256::from(1);
                match t {
                    Tamper::OtherSigner => signer = 3,
                    Tamper::OwnerField => s_owner = sig::key_addr(3),
                    Tamper::SpenderField => s_spender = addr(66),
                    Tamper::ValueField => s_value = value.wrapping_add(one),
                    Tamper::DeadlineField => s_dl = dl.wrapping_add(one),
                    Tamper::NonceNext => s_nonce += one,
                    Tamper::NoncePrev => s_nonce = s_nonce.wrapping_sub(one),
                    Tamper::Chain => chain = CHAIN + CHAIN + 1 - chain,
                    Tamper::Contract => me = OTHER,
                    Tamper::Name => nm = "Permit Toke",
                    Tamper::Version => ver = "2",
                    Tamper::TypeHash => th = "Permit(address owner,address spender,uint256 value,uint256 deadline,uint256 nonce)",
                    _ => {}
                }
                let signed = sig::typed(sig::domain(nm, ver, chain, me), struct_hash(th, s_owner, s_spender, s_value, s_nonce, s_dl));
                let (mut v, mut r, mut s) = sig::sign(signer, signed);
                match t {
                    Tamper::FlipV => v = 55 - v,
                    Tamper::V(x) => v = if x < 2 { v - 27 } else { x },
                    Tamper::HighS => {
                        s = B256::from(sig::N_ORDER - U256::from_be_bytes(s.0));
                        v = 55 - v;
                    }
                    Tamper::ZeroR => r = B256::ZERO,
                    Tamper::ZeroS => s = B256::ZERO,
                    Tamper::RIsN => r = B256::from(sig::N_ORDER),
                    Tamper::MaxS => s = B256::from(U256::MAX),
                    Tamper::SwapRS => std::mem::swap(&mut r, &mut s),
                    _ => {}
                }
                // what the contract must verify
                let digest = sig::typed(sig::domain("Permit Token", "1", m.chain, TOKEN), struct_hash(PERMIT_T, ow, spender, value, nonce, dl));
                let rec = if v == 0 || v == 1 { None } else { sig::recover(digest, U256::from(v), r, s) };
                let mut e = vec![];
                if U256::from(m.now) > dl {
                    e.push(cd("ERC2612ExpiredSignature(uint256)", &[u(dl)]));
                }
                let high = U256::from_be_bytes(s.0) > sig::N_HALF;
                if high {
                    e.push(cd("ECDSAInvalidSignatureS(bytes32)", &[b32(s)]));
                } else {
                    match rec {
                        None => e.push(cd("ECDSAInvalidSignature()", &[])),
                        Some(x) if x != ow => e.push(cd("ERC2612InvalidSigner(address,address)", &[a(x), a(ow)])),
                        _ => {}
                    }
                }
                let honest = matches!(t, Tamper::No);
                if spender.is_zero() {
                    e.push(e_spender(spender));
                }
                if !honest && e.is_empty() {
                    return Err(format!("{name}: harness: tampered permit has no expected error"));
                }
                let st: Step = if e.is_empty() {
                    *m.nonce.entry(ow).or_default() += 1;
                    m.t.approve(ow, spender, value)
                } else {
                    Err(e)
                };
                let args = [a(ow), a(spender), u(value), u(dl), w(v as u64), b32(r), b32(s)];
                step(&name, by, TOKEN, cd("permit(address,address,uint256,uint256,uint8,bytes32,bytes32)", &args), &expect(&st, vec![]))?;
                if st.is_ok() {
                    // the very same permit again: replay must fail
                    let w0 = with(|vm| vm.world.clone());
                    let out = tx(by, TOKEN, U256::ZERO, cd("permit(address,address,uint256,uint256,uint8,bytes32,bytes32)", &args));
                    if out.ok {
                        return Err(format!("{name}: the same permit was accepted twice"));
                    }
                    let w1 = with(|vm| vm.world.clone());
                    if w0.fingerprint() != w1.fingerprint() {
                        return Err(format!("{name}: refused replay changed state"));
                    }
                }
                Ok(st.is_ok())
            }
        }
    }
    fn check(&self, m: &PM) -> Result<(), String> {
        let (o1, o2) = (sig::key_addr(1), sig::key_addr(2));
        m.t.check_views(&[o1, o2, addr(7), addr(8), Address::ZERO, addr(50)])?;
        for x in [o1, o2, addr(7), Address::ZERO] {
            let n = *m.nonce.get(&x).unwrap_or(&0);
            must_view("nonces", o1, TOKEN, cd("nonces(address)", &[a(x)]), &enc(&[w(n)]))?;
        }
        must_view("DOMAIN_SEPARATOR", o1, TOKEN, cd("DOMAIN_SEPARATOR()", &[]), &sig::domain("Permit Token", "1", m.chain, TOKEN).0)
    }
}

const PERMIT: &str = "permit(address,address,uint256,uint256,uint8,bytes32,bytes32)";
/// One permit of owner key 1 with every field given, in a world with the given
/// clock and nonce; `change` flips one bit of the submitted call data words.
#[allow(clippy::too_many_arguments)]
fn one_permit(now: u64, nonce: U256, by: Address, spender: Address, value: U256, dl: U256, signed_nonce: U256, change: Option<(usize, usize)>) -> Result<bool, String> {
    let me = sig::key_addr(1);
    let mut wd = World { chain_id: CHAIN, timestamp: now, ..Default::default() };
    wd.acct(TOKEN).code = native!(Pm);
    let k = keccak(&enc(&[a(me), w(3)]));
    if !nonce.is_zero() {
        std::sync::Arc::make_mut(&mut wd.acct(TOKEN).storage).insert(k, B256::from(nonce));
    }
    with(|vm| vm.world = wd);
    let before = with(|vm| vm.world.fingerprint());
    let dom = sig::domain("Permit Token", "1", CHAIN, TOKEN);
    let (v, r, s) = sig::sign(1, sig::typed(dom, struct_hash(PERMIT_T, me, spender, value, signed_nonce, dl)));
    let mut words: [U256; 7] = [U256::from_be_bytes(me.into_word().0), U256::from_be_bytes(spender.into_word().0), value, dl, U256::from(v), U256::from_be_bytes(r.0), U256::from_be_bytes(s.0)];
    if let Some((f, bit)) = change {
        words[f] ^= U256::from(1) << bit;
    }
    let (ow, sp) = (Address::from_word(words[0].into()), Address::from_word(words[1].into()));
    let (value, dl, v, r, s) = (words[2], words[3], words[4], B256::from(words[5]), B256::from(words[6]));
    let cur = if ow == me { nonce } else { U256::ZERO };
    let digest = sig::typed(dom, struct_hash(PERMIT_T, ow, sp, value, cur, dl));
    let mut e = vec![];
    if U256::from(now) > dl {
        e.push(cd("ERC2612ExpiredSignature(uint256)", &[u(dl)]));
    }
    if words[6] > sig::N_HALF {
        e.push(cd("ECDSAInvalidSignatureS(bytes32)", &[b32(s)]));
    } else {
        match sig::recover(digest, v, r, s) {
            None => e.push(cd("ECDSAInvalidSignature()", &[])),
            Some(x) if x != ow => e.push(cd("ERC2612InvalidSigner(address,address)", &[a(x), a(ow)])),
            _ => {}
        }
    }
    if sp.is_zero() {
        e.push(e_spender(sp));
    }
    if ow.is_zero() {
        e.push(cd("ERC20InvalidApprover(address)", &[a(ow)]));
    }
    let ok = e.is_empty();
    if ok && (change.is_some() || signed_nonce != nonce) {
        return Err("harness: a changed permit is expected to be valid".into());
    }
    let call = cd(PERMIT, &[a(ow), a(sp), u(value), u(dl), u(v), b32(r), b32(s)]);
    let ex = if ok && nonce == U256::MAX {
        Expect::Fail
    } else if ok {
        Expect::Ok(vec![], vec![ev(TOKEN, "Approval(address,address,uint256)", &[a(ow), a(sp)], &[u(value)])])
    } else if nonce == U256::MAX {
        Expect::Fail
    } else {
        Expect::Err(e)
    };
    let what = format!("permit at {now}, nonce {nonce}, spender {spender}, value {value}, deadline {dl}, change {change:?}");
    step(&what, by, TOKEN, call.clone(), &ex)?;
    let done = matches!(ex, Expect::Ok(..));
    let (want_a, want_n) = if done { (value, nonce + U256::from(1)) } else { (U256::ZERO, nonce) };
    must_view("allowance", by, TOKEN, cd("allowance(address,address)", &[a(me), a(spender)]), &enc(&[u(want_a)]))?;
    must_view("nonces", by, TOKEN, cd("nonces(address)", &[a(me)]), &enc(&[u(want_n)]))?;
    if !done && with(|vm| vm.world.fingerprint()) != before {
        return Err(format!("{what}: a refused permit changed the state"));
    }
    if done && tx(by, TOKEN, U256::ZERO, call).ok {
        return Err(format!("{what}: accepted twice"));
    }
    Ok(done)
}
fn permits_wide(c: &mut Check) {
    let n = |v: u64| U256::from(v);
    let p2 = |e: usize| U256::from(1) << e;
    let bor = addr(7);
    let flips: Vec<(usize, usize)> = (0..7).flat_map(|f| (0..match f { 0 | 1 => 160, 4 => 8, _ => 256 }).map(move |b| (f, b))).collect();
    c.enumerate("single-bit changes of a permit", "every single-bit change of owner, spender, value, deadline, v, r and s of a signed permit is refused", &flips, |x| one_permit(NOW, n(3), addr(50), bor, n(5), n(NOW + 9), n(3), Some(*x)));
    let mut wide: Vec<U256> = vec![];
    for e in 0..256 {
        wide.extend([p2(e) - n(1), p2(e), p2(e) + n(1)]);
    }
    wide.push(U256::MAX);
    wide.sort();
    wide.dedup();
    let mut cases: Vec<(u64, U256)> = vec![];
    for now in [0u64, 1, 1000, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX] {
        cases.extend(wide.iter().map(|d| (now, *d)));
        cases.extend([now.saturating_sub(1), now, now.saturating_add(1)].iter().map(|d| (now, n(*d))));
        cases.extend([64usize, 96, 128, 160, 192, 255].iter().map(|e| (now, n(now.saturating_sub(1)).wrapping_add(p2(*e)))));
    }
    c.enumerate("deadlines over the whole width", "8 clock values x deadlines at every bit boundary and around the clock, also above 64 bits", &cases, |(now, dl)| one_permit(*now, n(0), addr(50), bor, n(5), *dl, n(0), None));
    c.enumerate("values over the whole width", "values at every bit boundary", &wide, |v| one_permit(NOW, n(0), addr(50), bor, *v, n(NOW), n(0), None));
    let mut cases: Vec<(U256, U256)> = vec![];
    for x in &wide {
        cases.extend([(*x, *x), (*x, x.wrapping_sub(n(1))), (*x, x.wrapping_add(n(1))), (*x, n(0)), (*x, *x ^ p2(64)), (*x, *x ^ p2(128)), (*x, *x ^ p2(32))]);
    }
    cases.dedup();
    c.enumerate("nonces over the whole width", "current nonces at every bit boundary x signed nonces equal, neighbouring, zero and differing in one high bit", &cases, |(cur, sg)| one_permit(NOW, *cur, addr(50), bor, n(5), n(NOW), *sg, None));
    let mut who: Vec<Address> = vec![sig::key_addr(1), sig::key_addr(2), TOKEN, Address::ZERO, Address::new([0xff; 20]), addr(50)];
    for k in 0..160 {
        who.push(Address::from_word(p2(k).into()));
    }
    let cases: Vec<(Address, Address)> = who.iter().flat_map(|s| [addr(50), sig::key_addr(1), *s].into_iter().map(move |b| (*s, b))).filter(|x| !x.1.is_zero()).collect();
    c.enumerate("spenders and submitters", "the owner itself, the token, zero, every one-bit address as spender; submitted by anybody, the owner or the spender", &cases, |(sp, by)| one_permit(NOW, n(0), *by, *sp, n(5), n(NOW), n(0), None));
    // a long series: every nonce in turn, every older and the next permit refused at each point
    let lens = vec![c.q(40usize, 120)];
    c.enumerate("long series", "40 (thorough 120) permits in turn; at every point every earlier and the next two permits are refused", &lens, |l| {
        let me = sig::key_addr(1);
        let dom = sig::domain("Permit Token", "1", CHAIN, TOKEN);
        let mut wd = World { chain_id: CHAIN, timestamp: NOW, ..Default::default() };
        wd.acct(TOKEN).code = native!(Pm);
        with(|vm| vm.world = wd);
        let calls: Vec<Vec<u8>> = (0..*l + 2)
            .map(|i| {
                let (v, r, s) = sig::sign(1, sig::typed(dom, struct_hash(PERMIT_T, me, bor, n(i as u64), n(i as u64), n(NOW))));
                cd(PERMIT, &[a(me), a(bor), w(i as u64), w(NOW), w(v as u64), b32(r), b32(s)])
            })
            .collect();
        for i in 0..*l {
            let before = with(|vm| vm.world.fingerprint());
            for (j, call) in calls.iter().enumerate() {
                if j != i && (j < i || j <= i + 2) {
                    let out = tx(addr(50), TOKEN, U256::ZERO, call.clone());
                    if out.ok || with(|vm| vm.world.fingerprint()) != before {
                        return Err(format!("permit with nonce {j} was accepted or left a trace at nonce {i}"));
                    }
                }
            }
            step("permit in turn", addr(50), TOKEN, calls[i].clone(), &Expect::Ok(vec![], vec![ev(TOKEN, "Approval(address,address,uint256)", &[a(me), a(bor)], &[w(i as u64)])]))?;
        }
        Ok(true)
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    let n = |v: u64| U256::from(v);
    match id.as_str() {
        "C03" => {
            for (fee, fee_to, label) in [
                (n(0), Address::ZERO, "no fee"),
                (n(0), addr(8), "fee 0 with receiver"),
                (n(1), Address::ZERO, "fee 1 burned"),
                (n(1), addr(8), "fee 1 to receiver"),
                (n(2), BOR, "fee 2 to the borrower itself"),
                (n(1), TOKEN, "fee 1 to the token"),
                (U256::MAX, addr(8), "fee MAX"),
            ] {
                let s = Flash { fee, fee_to, premint: n(2), values: vec![n(0), n(1), n(2), U256::MAX - n(3), U256::MAX - n(2), U256::MAX], mint: vec![n(1)] };
                c.run(&format!("loan: {label}"), "borrower scripts: 5 approvals x 3 fund movements x 6 answers; loan 0,1,2 and around the supply headroom; foreign token, no-code and zero receivers", &s, c.q(5, 7));
            }
            let s = Flash { fee: n(1), fee_to: addr(8), premint: U256::MAX - n(4), values: vec![n(0), n(2), n(3), n(4), n(5)], mint: vec![n(1), n(2)] };
            c.run("near full supply", "supply MAX-4: headroom 4 and shrinking", &s, c.q(5, 7));
            // amounts and fees over the whole width, data of every length
            let p2 = |e: usize| U256::from(1) << e;
            let mut am: Vec<U256> = vec![n(0), n(3)];
            for e in [0usize, 8, 31, 32, 63, 64, 95, 96, 127, 128, 160, 191, 192, 224, 254, 255] {
                am.extend([p2(e) - n(1), p2(e), p2(e) + n(1)]);
            }
            am.extend([U256::MAX - n(1), U256::MAX]);
            am.sort();
            am.dedup();
            let cases: Vec<(U256, U256, usize)> = am.iter().flat_map(|x| am.iter().flat_map(move |y| (0..3).map(move |k| (*x, *y, k)))).collect();
            c.enumerate("loans and fees over the whole width", "every pair of loan and fee at every limb boundary x fee burned, to a receiver, to the borrower; the borrower owns the fee or one less; two loans in a row", &cases, |(val, fee, k)| {
                let mut any = false;
                for own in [*fee, fee.saturating_sub(n(1))] {
                    for pre in [n(0), U256::MAX - *val] {
                        let Some(pre) = pre.checked_sub(own) else { continue };
                        let s = Flash { fee: *fee, fee_to: [Address::ZERO, addr(8), BOR][*k], premint: pre, values: vec![], mint: vec![] };
                        let mut ops = vec![];
                        if !own.is_zero() {
                            ops.push(FOp::Mint(BOR, own));
                        }
                        for ap in [0, 3, 2] {
                            ops.push(FOp::Loan { by: addr(1), to: BOR, token: TOKEN, value: *val, ap, ac: 0, re: 0, pad: 0 });
                        }
                        ops.push(FOp::Loan { by: addr(1), to: BOR, token: TOKEN, value: val.saturating_add(n(1)), ap: 0, ac: 0, re: 0, pad: 0 });
                        any |= mc::engine::script(&s, &ops)?;
                    }
                }
                Ok(any)
            });
            let pads: Vec<usize> = (0..=c.q(130, 600)).chain([1021, 4093]).collect();
            c.enumerate("callback data", "loan data of every length up to 133 (thorough 603), 1024 and 4096 bytes reaches the borrower unchanged", &pads, |pad| {
                let s = Flash { fee: n(1), fee_to: addr(8), premint: n(5), values: vec![], mint: vec![] };
                mc::engine::script(&s, &[FOp::Mint(BOR, n(3)), FOp::Loan { by: addr(1), to: BOR, token: TOKEN, value: n(7), ap: 0, ac: 0, re: 0, pad: *pad }])
            });
        }
        "C04" => {
            let s = Permits { values: vec![n(5)], deadlines: vec![-1, 0, 1, i64::MAX], spenders: vec![addr(7), Address::ZERO], owners: vec![1, 2], tampers: TAMPERS.to_vec(), ticks: true };
            c.run("tampered permits", "2 owners x 2 spenders x 4 deadlines x 24 tamperings, clock ticks, approve/transferFrom interleaved", &s, c.q(3, 4));
            let s = Permits { values: vec![n(0), n(5), U256::MAX], deadlines: vec![1], spenders: vec![addr(7), addr(8)], owners: vec![1, 2], tampers: vec![Tamper::No, Tamper::NoncePrev, Tamper::NonceNext, Tamper::ValueField], ticks: true };
            c.run("permit sequences", "values 0,5,MAX, nonce order, expiry by ticks", &s, c.q(4, 6));
            permits_wide(&mut c);
        }
        _ => panic!("unknown property"),
    }
    c.assume("the host model (storage cache, revert, logs, calls, ecrecover) follows Stylus/Nitro semantics");
    c.finish()
}
