//! C08, C09, C10 (ERC-721 part), C11, C12, C13.
use alloy_primitives::{aliases::U96, Address, FixedBytes, U256};
use mc::abi::*;
use mc::erc20ref::{expect, Step};
use mc::erc721ref::*;
use mc::host;
use mc::mockrecv::{self, recv, R};
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::token::erc721::{
    self,
    extensions::{
        consecutive, enumerable, wrapper, Erc721Consecutive, Erc721Enumerable, Erc721Wrapper, IErc721Burnable,
    },
    Erc721, IErc721,
};
use std::sync::atomic::Ordering;
use stylus_sdk::{abi::Bytes, prelude::*};

const T: Address = Address::new([0x72; 20]);
const UND: Address = Address::new([0x73; 20]);
const WRAP: Address = Address::new([0x74; 20]);
const ZERO: Address = Address::ZERO;

// ------------------------------------------------------------- contracts
#[storage]
struct Nft {
    #[borrow]
    erc721: Erc721,
}
unsafe impl TopLevelStorage for Nft {}
#[public]
#[inherit(Erc721)]
impl Nft {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, id)
    }
    fn safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), erc721::Error> {
        self.erc721._safe_mint(to, id, &data)
    }
    fn raw_increase(&mut self, account: Address, k: U256) {
        self.erc721._increase_balance(account, k.to())
    }
    fn raw_burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721._burn(id)
    }
    fn burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721.burn(id)
    }
    fn raw_transfer(&mut self, from: Address, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._transfer(from, to, id)
    }
    fn raw_safe_transfer(&mut self, from: Address, to: Address, id: U256, data: Bytes) -> Result<(), erc721::Error> {
        self.erc721._safe_transfer(from, to, id, &data)
    }
    fn raw_approve(&mut self, to: Address, id: U256, auth: Address, emit: bool) -> Result<(), erc721::Error> {
        self.erc721._approve(to, id, auth, emit)
    }
    fn raw_update(&mut self, to: Address, id: U256, auth: Address) -> Result<Address, erc721::Error> {
        self.erc721._update(to, id, auth)
    }
    fn raw_set_all(&mut self, owner: Address, op: Address, v: bool) -> Result<(), erc721::Error> {
        self.erc721._set_approval_for_all(owner, op, v)
    }
    fn is_authorized(&self, owner: Address, spender: Address, id: U256) -> bool {
        self.erc721._is_authorized(owner, spender, id)
    }
    fn check_authorized(&self, owner: Address, spender: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._check_authorized(owner, spender, id)
    }
    fn raw_owner_of(&self, id: U256) -> Address {
        self.erc721._owner_of(id)
    }
    fn raw_get_approved(&self, id: U256) -> Address {
        self.erc721._get_approved(id)
    }
}

#[storage]
struct Con {
    #[borrow]
    con: Erc721Consecutive,
}
unsafe impl TopLevelStorage for Con {}
#[public]
#[inherit(Erc721Consecutive)]
impl Con {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), consecutive::Error> {
        self.con._mint(to, id)
    }
    fn safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), consecutive::Error> {
        self.con._safe_mint(to, id, &data)
    }
    fn raw_burn(&mut self, id: U256) -> Result<(), consecutive::Error> {
        self.con._burn(id)
    }
    fn burn(&mut self, id: U256) -> Result<(), consecutive::Error> {
        self.con._update(Address::ZERO, id, stylus_sdk::msg::sender())?;
        Ok(())
    }
    fn raw_transfer(&mut self, from: Address, to: Address, id: U256) -> Result<(), consecutive::Error> {
        self.con._transfer(from, to, id)
    }
    fn raw_safe_transfer(&mut self, from: Address, to: Address, id: U256, data: Bytes) -> Result<(), consecutive::Error> {
        self.con._safe_transfer(from, to, id, &data)
    }
    fn raw_approve(&mut self, to: Address, id: U256, auth: Address, emit: bool) -> Result<(), consecutive::Error> {
        self.con._approve(to, id, auth, emit)
    }
    fn raw_update(&mut self, to: Address, id: U256, auth: Address) -> Result<Address, consecutive::Error> {
        self.con._update(to, id, auth)
    }
    fn raw_owner_of(&self, id: U256) -> Address {
        self.con._owner_of(id)
    }
    fn batch(&mut self, to: Address, n: U256) -> Result<U256, consecutive::Error> {
        Ok(U256::from(self.con._mint_consecutive(to, U96::from(n))?))
    }
}

#[derive(SolidityError)]
enum EnErr {
    En(enumerable::Error),
    E(erc721::Error),
}
#[storage]
struct En {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    en: Erc721Enumerable,
}
unsafe impl TopLevelStorage for En {}
impl En {
    fn moved(&mut self, prev: Address, to: Address, id: U256) -> Result<(), EnErr> {
        // the bookkeeping sequence of the documentation and examples
        if prev != to {
            self.en._remove_token_from_owner_enumeration(prev, id, &self.erc721)?;
            self.en._add_token_to_owner_enumeration(to, id, &self.erc721)?;
        }
        Ok(())
    }
}
#[public]
#[inherit(Erc721, Erc721Enumerable)]
impl En {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), EnErr> {
        self.erc721._mint(to, id)?;
        self.en._add_token_to_all_tokens_enumeration(id);
        self.en._add_token_to_owner_enumeration(to, id, &self.erc721)?;
        Ok(())
    }
    fn burn(&mut self, id: U256) -> Result<(), EnErr> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721.burn(id)?;
        self.en._remove_token_from_owner_enumeration(owner, id, &self.erc721)?;
        self.en._remove_token_from_all_tokens_enumeration(id);
        Ok(())
    }
    fn transfer_from(&mut self, from: Address, to: Address, id: U256) -> Result<(), EnErr> {
        let prev = self.erc721.owner_of(id)?;
        self.erc721.transfer_from(from, to, id)?;
        self.moved(prev, to, id)
    }
    fn check_increase(&self, n: U256) -> Result<(), EnErr> {
        Ok(Erc721Enumerable::_check_increase_balance(n.to::<u128>())?)
    }
}

#[storage]
struct Wrapped {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    wrapper: Erc721Wrapper,
}
unsafe impl TopLevelStorage for Wrapped {}
#[public]
#[inherit(Erc721)]
impl Wrapped {
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn deposit_for(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, ids, &mut self.erc721)
    }
    fn withdraw_to(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.wrapper.withdraw_to(account, ids, &mut self.erc721)
    }
    #[selector(name = "onERC721Received")]
    fn on_erc721_received(&mut self, op: Address, from: Address, id: U256, data: Bytes) -> Result<FixedBytes<4>, wrapper::Error> {
        self.wrapper.on_erc721_received(op, from, id, data, &mut self.erc721)
    }
    fn recover(&mut self, account: Address, id: U256) -> Result<U256, wrapper::Error> {
        self.wrapper._recover(account, id, &mut self.erc721)
    }
}

fn n(v: u64) -> U256 {
    U256::from(v)
}

// --------------------------------------------------- C08 / C09 / C10 / C12
#[derive(Clone, Debug)]
enum Op {
    Mint(Address, U256),
    Burn(U256),
    Transfer(Address, Address, U256),
    BurnBy(Address, U256),
    TransferFrom(Address, Address, Address, U256),
    Approve(Address, Address, U256),
    RawApprove(Address, U256, Address, bool),
    RawUpdate(Address, U256, Address),
    SetAll(Address, Address, bool),
    RawSetAll(Address, Address, bool),
    SafeMint(Address, Address, U256, usize),
    Safe(Address, Address, Address, U256),
    SafeData(Address, Address, Address, U256, usize),
    RawSafe(Address, Address, Address, U256, usize),
    Batch(Address, U256),
}
/// Payload `d`: one of the fixed ones, or one of `d - DATA.len()` bytes.
fn payload(d: usize) -> Vec<u8> {
    match DATA.get(d) {
        Some(x) => x.to_vec(),
        None => (0..d - DATA.len()).map(|i| (i * 7 + 1) as u8).collect(),
    }
}
const DATA: [&[u8]; 4] = [b"", b"\x01", b"exactly thirty-two bytes long!!!", b"a payload that is longer than thirty-two bytes"];

struct Sys {
    con: bool,
    ids: Vec<U256>,
    who: Vec<Address>,
    gen: fn(&Sys, &M) -> Vec<Op>,
    /// consecutive configuration
    first: U96,
    maxb: U96,
    deep_views: bool,
    /// initial tokens
    start: Vec<(Address, U256)>,
}
#[derive(Clone, Hash)]
struct M {
    m: M721,
    /// next batch identifier (consecutive)
    next: U256,
}
impl Sys {
    fn safe(&self, m: &mut M721, by: Address, from: Address, to: Address, id: U256, data: &[u8], r: Step, before: &M721, what: &str, call: Vec<u8>) -> Result<bool, String> {
        let base_ok = r.is_ok();
        let r = m.accept(r, before, to, true);
        let e = expect(&r, vec![]);
        step(what, by, T, call, &e)?;
        let has_code = mockrecv::mode_of(to).is_some() || to == T;
        if base_ok {
            let d = cd(mockrecv::S721, &[a(by), a(from), u(id), bytes(data)]);
            check_callback(T, to, if has_code { Some(d) } else { None }).map_err(|e| format!("{what}: {e}"))?;
            if mockrecv::mode_of(to) == Some(R::Probe) {
                // what the receiver saw during the callback
                let seen: Vec<Vec<u8>> = with(|vm| vm.calls.iter().filter(|c| c.from == to).map(|c| c.ret.clone()).collect());
                let want = vec![enc(&[a(to)]), enc(&[w(m.count(to))]), enc(&[a(ZERO)])];
                if seen != want {
                    return Err(format!("{what}: during the callback the receiver saw {:?} instead of {:?}", seen.iter().map(|x| show(x)).collect::<Vec<_>>(), want.iter().map(|x| show(x)).collect::<Vec<_>>()));
                }
            }
        } else {
            check_callback(T, to, None).map_err(|e| format!("{what}: refused, but {e}"))?;
        }
        Ok(r.is_ok())
    }
}
impl System for Sys {
    type Model = M;
    type Op = Op;
    fn init(&self) -> (World, M) {
        let mut wd = World::default();
        wd.timestamp = 1000;
        wd.chain_id = 1;
        wd.acct(T).code = if self.con { native!(Con) } else { native!(Nft) };
        mockrecv::install(&mut wd);
        let mut m = M { m: M721::new(T), next: U256::from(self.first) };
        if self.con {
            let packed = U256::from(self.first) | (U256::from(self.maxb) << 96);
            wd.set_slot(T, 6, packed);
        }
        with(|vm| vm.world = wd);
        for (o, id) in &self.start {
            let out = host::tx(self.who[0], T, U256::ZERO, cd("mint(address,uint256)", &[a(*o), u(*id)]));
            assert!(out.ok, "initial mint");
            m.m.mint(*o, *id).unwrap();
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn ops(&self, m: &M) -> Vec<Op> {
        (self.gen)(self, m)
    }
    fn apply(&self, mm: &mut M, op: &Op) -> Result<bool, String> {
        let what = format!("{op:?}");
        let before = mm.m.clone();
        let m = &mut mm.m;
        let any = self.who[0];
        let (r, by, call) = match *op {
            Op::Mint(to, id) => (m.mint(to, id), any, cd("mint(address,uint256)", &[a(to), u(id)])),
            Op::Burn(id) => (m.burn(id), any, cd("rawBurn(uint256)", &[u(id)])),
            Op::Transfer(f, t, id) => (m.transfer(f, t, id), any, cd("rawTransfer(address,address,uint256)", &[a(f), a(t), u(id)])),
            Op::BurnBy(by, id) => (m.burn_by(by, id), by, cd("burn(uint256)", &[u(id)])),
            Op::TransferFrom(by, f, t, id) => {
                (m.transfer_from(by, f, t, id), by, cd("transferFrom(address,address,uint256)", &[a(f), a(t), u(id)]))
            }
            Op::Approve(by, to, id) => (m.approve(by, to, id), by, cd("approve(address,uint256)", &[a(to), u(id)])),
            Op::RawApprove(to, id, auth, emit) => {
                let r = if auth.is_zero() {
                    match m.o(id) {
                        None => Err(vec![e_missing(id)]),
                        Some(o) => m.approve(o, to, id),
                    }
                } else {
                    m.approve(auth, to, id)
                };
                let r = if emit { r } else { r.map(|_| vec![]) };
                (r, any, cd("rawApprove(address,uint256,address,bool)", &[a(to), u(id), a(auth), b(emit)]))
            }
            Op::RawUpdate(to, id, auth) => {
                // mint, move or burn, whichever the owner and `to` make it
                let prev = m.o(id).unwrap_or(ZERO);
                let mut e = vec![];
                if !auth.is_zero() {
                    if prev.is_zero() {
                        e.push(e_missing(id));
                    } else if !m.authorised(auth, id) {
                        e.push(e_approval(auth, id));
                    }
                }
                let r: Step = if !e.is_empty() {
                    Err(e)
                } else if prev.is_zero() {
                    if to.is_zero() {
                        Ok(vec![ev_move(T, ZERO, ZERO, id)])
                    } else {
                        m.mint(to, id)
                    }
                } else if to.is_zero() {
                    m.burn(id)
                } else {
                    m.transfer(prev, to, id)
                };
                let ex = expect(&r, enc(&[a(prev)]));
                step(&what, any, T, cd("rawUpdate(address,uint256,address)", &[a(to), u(id), a(auth)]), &ex)?;
                return Ok(r.is_ok());
            }
            Op::SetAll(by, o, v) => (m.set_all(by, o, v), by, cd("setApprovalForAll(address,bool)", &[a(o), b(v)])),
            Op::RawSetAll(ow, o, v) => (m.set_all(ow, o, v), any, cd("rawSetAll(address,address,bool)", &[a(ow), a(o), b(v)])),
            Op::SafeMint(by, to, id, d) => {
                let r = m.mint(to, id);
                let call = cd("safeMint(address,uint256,bytes)", &[a(to), u(id), bytes(&payload(d))]);
                return self.safe(m, by, ZERO, to, id, &payload(d), r, &before, &what, call);
            }
            Op::Safe(by, f, t, id) => {
                let r = m.transfer_from(by, f, t, id);
                let call = cd("safeTransferFrom(address,address,uint256)", &[a(f), a(t), u(id)]);
                return self.safe(m, by, f, t, id, b"", r, &before, &what, call);
            }
            Op::SafeData(by, f, t, id, d) => {
                let r = m.transfer_from(by, f, t, id);
                let call = cd("safeTransferFrom(address,address,uint256,bytes)", &[a(f), a(t), u(id), bytes(&payload(d))]);
                return self.safe(m, by, f, t, id, &payload(d), r, &before, &what, call);
            }
            Op::RawSafe(by, f, t, id, d) => {
                let r = m.transfer(f, t, id);
                let call = cd("rawSafeTransfer(address,address,uint256,bytes)", &[a(f), a(t), u(id), bytes(&payload(d))]);
                return self.safe(m, by, f, t, id, &payload(d), r, &before, &what, call);
            }
            Op::Batch(to, size) => {
                let call = cd("batch(address,uint256)", &[a(to), u(size)]);
                let mut e = vec![];
                let mut panics = false;
                if !size.is_zero() {
                    if to.is_zero() {
                        e.push(e_ireceiver(ZERO));
                    }
                    if size > U256::from(self.maxb) {
                        e.push(cd("ERC721ExceededMaxBatchMint(uint256,uint256)", &[u(size), u(U256::from(self.maxb))]));
                    }
                    // identifiers are 96 bits wide
                    if mm.next + size - n(1) > U256::from(U96::MAX) {
                        panics = true;
                    }
                }
                let ex = if panics {
                    Expect::Fail
                } else if !e.is_empty() {
                    Expect::Err(e)
                } else if size.is_zero() {
                    if mm.next > U256::from(U96::MAX) {
                        // no identifier is left: the returned next one is meaningless
                        let _ = host::tx(any, T, U256::ZERO, call);
                        return Ok(false);
                    }
                    Expect::Ok(enc(&[u(mm.next)]), vec![])
                } else {
                    let last = mm.next + size - n(1);
                    Expect::Ok(
                        enc(&[u(mm.next)]),
                        vec![ev(T, "ConsecutiveTransfer(uint256,uint256,address,address)", &[u(mm.next), a(ZERO), a(to)], &[u(last)])],
                    )
                };
                step(&what, any, T, call, &ex)?;
                let ok = matches!(ex, Expect::Ok(..));
                if ok {
                    let mut i = mm.next;
                    for _ in 0..size.to::<u64>() {
                        m.owner.insert(i, to);
                        i += n(1);
                    }
                    mm.next = i;
                }
                return Ok(ok);
            }
        };
        let e = expect(&r, vec![]);
        step(&what, by, T, call, &e)?;
        check_callback(T, ZERO, None).map_err(|e| format!("{what}: {e}"))?;
        Ok(r.is_ok())
    }
    fn check(&self, mm: &M) -> Result<(), String> {
        let m = &mm.m;
        m.check_views(&self.who, &self.ids)?;
        if self.deep_views {
            let q = self.who[0];
            for id in &self.ids {
                let own = m.o(*id).unwrap_or(ZERO);
                must_view("_owner_of", q, T, cd("rawOwnerOf(uint256)", &[u(*id)]), &enc(&[a(own)]))?;
                if self.con {
                    continue;
                }
                let ap = m.appr.get(id).copied().unwrap_or(ZERO);
                must_view("_get_approved", q, T, cd("rawGetApproved(uint256)", &[u(*id)]), &enc(&[a(ap)]))?;
                for x in &self.who {
                    for y in &self.who {
                        let auth = !y.is_zero() && (x == y || m.ops.contains(&(*x, *y)) || ap == *y);
                        must_view("_is_authorized", q, T, cd("isAuthorized(address,address,uint256)", &[a(*x), a(*y), u(*id)]), &enc(&[b(auth)]))?;
                        let d = cd("checkAuthorized(address,address,uint256)", &[a(*x), a(*y), u(*id)]);
                        if auth {
                            must_view("_check_authorized", q, T, d, &[])?;
                        } else if x.is_zero() {
                            must_fail_view("_check_authorized", q, T, d, &[e_missing(*id)])?;
                        } else {
                            must_fail_view("_check_authorized", q, T, d, &[e_approval(*y, *id)])?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn gen_c08(s: &Sys, _m: &M) -> Vec<Op> {
    let mut v = vec![];
    let acc: Vec<Address> = s.who.iter().copied().filter(|x| !x.is_zero()).collect();
    for &id in &s.ids {
        for &x in &s.who {
            v.push(Op::Mint(x, id));
            v.push(Op::Approve(acc[0], x, id));
            for &y in &s.who {
                v.push(Op::Transfer(x, y, id));
                for &z in &acc {
                    v.push(Op::TransferFrom(z, x, y, id));
                }
            }
            for &z in &s.who {
                v.push(Op::RawUpdate(x, id, z));
            }
        }
        for &x in &acc {
            v.push(Op::BurnBy(x, id));
        }
        v.push(Op::Burn(id));
    }
    v
}
fn gen_c09(s: &Sys, m: &M) -> Vec<Op> {
    let mut v = vec![];
    let acc: Vec<Address> = s.who.iter().copied().filter(|x| !x.is_zero()).collect();
    let k = acc.len();
    for &id in &s.ids {
        for &x in &acc {
            v.push(Op::Mint(x, id));
            v.push(Op::BurnBy(x, id));
            for &y in &s.who {
                v.push(Op::Approve(x, y, id));
                for &z in &s.who {
                    v.push(Op::TransferFrom(x, y, z, id));
                    if !y.is_zero() && !z.is_zero() {
                        v.push(Op::SafeData(x, y, z, id, 1));
                    }
                    if s.deep_views && m.m.o(id).is_some() {
                        for e in [false, true] {
                            v.push(Op::RawApprove(y, id, z, e));
                        }
                    }
                }
            }
        }
        v.push(Op::Burn(id));
    }
    for i in 0..k {
        for j in 0..k {
            // quick alphabet: a ring of grants plus one to oneself
            if s.deep_views || j == (i + 1) % k || (i == 0 && j == 0) {
                for f in [true, false] {
                    v.push(Op::SetAll(acc[i], acc[j], f));
                }
            }
        }
        v.push(Op::SetAll(acc[i], ZERO, true));
        if !s.con {
            v.push(Op::RawSetAll(acc[i], acc[(i + 1) % k], true));
            v.push(Op::RawSetAll(acc[i], ZERO, false));
        }
    }
    v
}
fn gen_c10(s: &Sys, m: &M) -> Vec<Op> {
    let mut v = vec![];
    let senders: Vec<Address> = s.who.iter().copied().filter(|x| !x.is_zero() && *x != T).collect();
    for &id in &s.ids {
        let own = m.m.o(id);
        for &to in &s.who {
            for by in [s.who[0], s.who[1]] {
                for d in 0..DATA.len() {
                    v.push(Op::SafeMint(by, to, id, d));
                }
            }
            for &by in &senders {
                // the owner, an approved party or a stranger
                if Some(by) != own && by != s.who[0] && by != s.who[1] {
                    continue;
                }
                let from = own.unwrap_or(by);
                v.push(Op::Safe(by, from, to, id));
                for d in 0..DATA.len() {
                    v.push(Op::SafeData(by, from, to, id, d));
                }
                v.push(Op::RawSafe(by, from, to, id, 3));
                v.push(Op::SafeData(by, s.who[1], to, id, 1));
            }
        }
        v.push(Op::Burn(id));
        if let Some(o) = own {
            v.push(Op::Approve(o, s.who[1], id));
            v.push(Op::TransferFrom(o, o, s.who[0], id));
        }
    }
    v
}
fn gen_c12(s: &Sys, m: &M) -> Vec<Op> {
    let mut v = vec![];
    let acc: Vec<Address> = s.who.iter().copied().filter(|x| !x.is_zero()).collect();
    // batches come before single mints of later identifiers (they belong to construction)
    let free = m.m.owner.keys().all(|k| *k < m.next);
    if free {
        for size in [0u64, 1, 2, 3, 4] {
            for &to in &s.who {
                if to.is_zero() && size != 2 && size != 0 {
                    continue;
                }
                v.push(Op::Batch(to, n(size)));
            }
        }
    }
    for &id in &s.ids {
        v.push(Op::Burn(id));
        v.push(Op::BurnBy(acc[0], id));
        for &x in &acc {
            v.push(Op::Mint(x, id));
        }
        v.push(Op::Mint(ZERO, id));
        let o = m.m.o(id).unwrap_or(acc[0]);
        let other = if o == acc[0] { acc[1] } else { acc[0] };
        v.push(Op::Approve(o, acc[1], id));
        v.push(Op::Approve(other, other, id));
        v.push(Op::TransferFrom(o, o, other, id));
        v.push(Op::TransferFrom(o, o, o, id));
        v.push(Op::TransferFrom(acc[1], o, acc[1], id));
        v.push(Op::TransferFrom(o, other, o, id));
        v.push(Op::TransferFrom(o, o, ZERO, id));
        v.push(Op::Transfer(o, other, id));
        v.push(Op::Transfer(other, o, id));
        v.push(Op::Transfer(o, ZERO, id));
        v.push(Op::RawUpdate(other, id, ZERO));
        v.push(Op::RawUpdate(ZERO, id, o));
    }
    v
}

fn sys(ids: Vec<U256>, who: Vec<Address>, gen: fn(&Sys, &M) -> Vec<Op>) -> Sys {
    Sys { con: false, ids, who, gen, first: U96::ZERO, maxb: U96::ZERO, deep_views: false, start: vec![] }
}

/// Identifiers over the whole range, large balances, unusual accounts.
fn wide_ids(c: &mut Check, con: bool) {
    let (aa, bb, cc) = (addr(1), addr(2), addr(3));
    let mk = |ids: Vec<U256>, who: Vec<Address>| {
        let mut s = sys(ids, who, gen_c08);
        s.con = con;
        // batch identifiers far from everything used here
        s.first = U96::MAX - U96::from(1000);
        s.maxb = U96::from(3);
        s
    };
    let tag = if con { " on consecutive" } else { "" };
    let mut xs = crate::e1155::bounds();
    xs.extend((0..256).map(|k| n(1) << k));
    xs.extend([U256::MAX >> 1, n(1) << 95, (n(1) << 96) - n(1)]);
    xs.sort();
    xs.dedup();
    let items: Vec<(U256, usize)> = xs.iter().flat_map(|x| [0usize, 7, 8, 64, 95, 96, 127, 128, 160, 192, 255].into_iter().map(move |k| (*x, k))).collect();
    c.enumerate(&format!("wide identifiers{tag}"), "every power of two and boundary value beside an identifier that differs in one bit: mint, approve, move, burn, mint again", &items, |(x, k)| {
        let y = *x ^ (n(1) << *k);
        let s = mk(vec![*x, y], vec![aa, bb, cc]);
        script(
            &s,
            &[
                Op::Mint(aa, *x),
                Op::Mint(bb, *x),
                Op::Burn(y),
                Op::Approve(aa, cc, *x),
                Op::Mint(bb, y),
                Op::TransferFrom(cc, bb, cc, y),
                Op::TransferFrom(cc, aa, bb, *x),
                Op::TransferFrom(cc, bb, cc, *x),
                Op::BurnBy(bb, y),
                Op::Mint(cc, y),
                Op::BurnBy(bb, *x),
                Op::Transfer(cc, aa, y),
                Op::Mint(bb, *x),
            ],
        )
    });
    if !con {
        let ks: Vec<U256> = (0..128).flat_map(|k| [n(1) << k, (n(1) << k) - n(1)]).chain([(n(1) << 128) - n(1)]).collect();
        let items: Vec<(U256, U256)> = ks.iter().flat_map(|k| [n(0), n(1), (n(1) << 64) - n(1), (n(1) << 127) + n(1), (n(1) << 128) - n(1)].into_iter().map(move |j| (*k, j))).collect();
        c.enumerate("balances increased by extensions", "every power of two below 2^128 and its predecessor, twice for one account, beside mints, moves and burns", &items, |(k, j)| {
            let s = mk(vec![n(4), n(5)], vec![aa, bb]);
            let w0 = s.init().0;
            with(|vm| vm.world = w0);
            let go = |call: Vec<u8>| if tx(aa, T, U256::ZERO, call).ok { Ok(()) } else { Err("refused".to_string()) };
            let see = |p: Address, want: U256, when: &str| {
                let o = view(aa, T, cd("balanceOf(address)", &[a(p)]));
                if o.ok && o.data == enc(&[u(want)]) { Ok(()) } else { Err(format!("balance {when}: {:02x?} instead of {want}", o.data)) }
            };
            go(cd("mint(address,uint256)", &[a(aa), u(n(4))]))?;
            go(cd("mint(address,uint256)", &[a(aa), u(n(5))]))?;
            go(cd("rawIncrease(address,uint256)", &[a(aa), u(*k)]))?;
            see(aa, n(2) + *k, "after the first increase")?;
            see(bb, n(0), "of another account")?;
            go(cd("rawIncrease(address,uint256)", &[a(aa), u(*j)]))?;
            see(aa, n(2) + *k + *j, "after the second increase")?;
            go(cd("transferFrom(address,address,uint256)", &[a(aa), a(bb), u(n(4))]))?;
            go(cd("burn(uint256)", &[u(n(5))]))?;
            see(aa, *k + *j, "after a move and a burn")?;
            see(bb, n(1), "of the receiver")?;
            Ok(true)
        });
    }
    let top = c.q(300u64, 700);
    let items: Vec<u64> = (0..=top).step_by(c.q(4, 1)).chain([255, 256, 257]).collect();
    c.enumerate(&format!("large balances{tag}"), "an account that receives up to the bound of tokens, gives every third away and burns every fifth", &items, |k| {
        let ids: Vec<U256> = (0..*k).map(|i| n(i * 7 + 1)).collect();
        let s = mk(ids.clone(), vec![aa, bb]);
        let mut ops: Vec<Op> = ids.iter().map(|i| Op::Mint(aa, *i)).collect();
        for (i, id) in ids.iter().enumerate() {
            if i % 3 == 0 {
                ops.push(Op::TransferFrom(aa, aa, bb, *id));
            } else if i % 5 == 0 {
                ops.push(Op::BurnBy(aa, *id));
            }
        }
        ops.push(Op::Burn(n(0)));
        script(&s, &ops).map(|_| true)
    });
    let mut v = crate::e1155::odd_accounts();
    v.push(T);
    let mut items = vec![];
    for &x in &v {
        for &y in &v {
            for &z in &v {
                items.push((x, y, z));
            }
        }
    }
    c.enumerate(&format!("unusual accounts{tag}"), "zero, smallest and largest addresses, the token itself and a receiver contract as owner, caller and receiver, with and without approval", &items, |(x, y, z)| {
        let s = mk(vec![n(4), n(5)], v.clone());
        // nobody calls from the zero address
        let me = |p: Address| if p.is_zero() { cc } else { p };
        let (bx, by, bz) = (me(*x), me(*y), me(*z));
        script(
            &s,
            &[
                Op::Mint(*x, n(4)),
                Op::Mint(*x, n(5)),
                Op::TransferFrom(by, *x, *z, n(4)),
                Op::TransferFrom(bz, *z, *x, n(4)),
                Op::BurnBy(by, n(4)),
                Op::Mint(*x, n(4)),
                Op::Approve(bx, *y, n(4)),
                Op::Approve(by, *z, n(4)),
                Op::SafeData(by, *x, *z, n(4), 1),
                Op::SetAll(bx, *y, true),
                Op::Safe(by, *x, *z, n(5)),
                Op::Approve(by, *y, n(5)),
                Op::TransferFrom(by, *x, *z, n(5)),
                Op::SetAll(bx, *y, false),
                Op::BurnBy(by, n(5)),
                Op::RawUpdate(*z, n(5), by),
            ],
        )
        .map(|_| true)
    });
    let items: Vec<(usize, u8)> = (0..160).flat_map(|k| [(k, 0), (k, 1)]).collect();
    c.enumerate(&format!("neighbouring accounts{tag}"), "accounts that differ in one bit (every bit) share neither tokens nor approvals nor operator rights", &items, |(k, side)| {
        let (h, o) = (aa, bb);
        let (h2, o2) = if *side == 0 { (crate::e1155::flip(h, *k), o) } else { (h, crate::e1155::flip(o, *k)) };
        if h2 == o || o2 == h {
            return Ok(true);
        }
        let s = mk(vec![n(4), n(5), n(6)], vec![h, o, h2, o2]);
        script(
            &s,
            &[
                Op::Mint(h, n(4)),
                Op::Mint(h2, n(5)),
                Op::Mint(h2, n(6)),
                Op::Approve(h, o, n(4)),
                Op::BurnBy(o2, n(4)),
                Op::Mint(h, n(4)),
                Op::SetAll(h, o, true),
                Op::TransferFrom(o2, h2, o2, n(5)),
                Op::TransferFrom(h, h2, o2, n(6)),
                Op::TransferFrom(o, h, o, n(4)),
                Op::SetAll(h2, o2, true),
                Op::SetAll(h, o, false),
                Op::TransferFrom(o, h2, o, n(6)),
                Op::TransferFrom(o2, h2, o2, n(6)),
            ],
        )
        .map(|_| true)
    });
}
pub fn c08(c: &mut Check) {
    let (aa, bb, cc) = (addr(1), addr(2), addr(3));
    let ids = vec![n(0), n(7), U256::MAX];
    let s = sys(ids.clone(), vec![aa, bb, cc, ZERO], gen_c08);
    c.run("erc721-core", "3 accounts and the zero address, ids {0,7,max}: mint, burn, transfer, update, approve; all histories to a fixed point", &s, 40);
    let mut s = sys(ids, vec![aa, bb, cc, ZERO], gen_c08);
    s.con = true;
    s.first = U96::from(3);
    s.maxb = U96::from(3);
    c.run("erc721-core-on-consecutive", "the same alphabet on the consecutive variant", &s, c.q(6, 40));
    wide_ids(c, false);
    wide_ids(c, true);
}
pub fn c09(c: &mut Check) {
    let (aa, bb, cc) = (addr(1), addr(2), addr(3));
    let mut s = sys(vec![n(5)], vec![aa, bb, cc, ZERO], gen_c09);
    s.deep_views = true;
    c.run("authority-one-token", "1 token, 3 accounts, all nine operator grants, internal and public approvals; all histories to a fixed point", &s, 40);
    let s = sys(vec![n(0), n(9)], vec![aa, bb, cc, ZERO], gen_c09);
    c.run("authority-two-tokens", "2 tokens, 3 accounts, a ring of operator grants; all histories to the depth", &s, c.q(8, 40));
    let mut s = sys(vec![n(5)], vec![aa, bb, cc, ZERO], gen_c09);
    s.con = true;
    s.first = U96::from(5);
    s.maxb = U96::from(3);
    s.start = vec![];
    c.run("authority-consecutive", "1 token of the consecutive variant, ring of operator grants; all histories to a fixed point", &s, 40);
    wide_ids(c, false);
    wide_ids(c, true);
}
pub fn c10_721(c: &mut Check) {
    for con in [false, true] {
        let mut who = vec![addr(1), addr(2), ZERO, T];
        for r in mockrecv::ALL {
            who.push(recv(r));
        }
        let mut s = sys(vec![n(0), n(3)], who, gen_c10);
        s.con = con;
        s.first = U96::from(3);
        s.maxb = U96::from(3);
        c.run(
            if con { "erc721-receivers-consecutive" } else { "erc721-receivers" },
            "2 tokens, 2 plain accounts, zero, the token itself and 11 receiver contracts; safe mint, safe transfer with and without data, internal safe transfer; 4 payload lengths; all histories to the depth",
            &s,
            c.q(4, 6),
        );
        let tag = if con { " on consecutive" } else { "" };
        let mk = |ids: Vec<U256>, who: Vec<Address>| {
            let mut s = sys(ids, who, gen_c10);
            s.con = con;
            s.first = U96::MAX - U96::from(1000);
            s.maxb = U96::from(3);
            s
        };
        let (aa, bb) = (addr(1), addr(2));
        let acc = recv(R::Accept);
        let lens: Vec<usize> = (0..=c.q(130, 600)).chain([1023, 1024, 1025, 4096]).collect();
        c.enumerate(&format!("payloads{tag}"), "payloads of every length to 130 (thorough 600), and 1024 and 4096 bytes, reach the receiver unchanged in every safe operation", &lens, |l| {
            let d = DATA.len() + l;
            let s = mk(vec![n(4), n(5)], vec![aa, bb, acc]);
            script(&s, &[Op::SafeMint(bb, acc, n(4), d), Op::Mint(aa, n(5)), Op::SafeData(aa, aa, acc, n(5), d), Op::RawSafe(bb, acc, recv(R::Probe), n(4), d), Op::SafeData(acc, acc, recv(R::RevertReason), n(5), d)]).map(|_| true)
        });
        let mut ids = crate::e1155::bounds();
        ids.extend((0..256).map(|k| n(1) << k));
        ids.sort();
        ids.dedup();
        c.enumerate(&format!("identifiers in callbacks{tag}"), "every power of two and boundary value as identifier", &ids, |id| {
            let s = mk(vec![*id], vec![aa, bb, acc]);
            script(&s, &[Op::SafeMint(bb, acc, *id, 1), Op::Safe(acc, acc, recv(R::Probe), *id), Op::RawSafe(bb, recv(R::Probe), aa, *id, 1), Op::SafeData(aa, aa, recv(R::WrongValue), *id, 2), Op::Safe(aa, aa, acc, *id)]).map(|_| true)
        });
        // operators, owners and senders in the callback
        let mut who = vec![];
        for k in 0..160 {
            let x = U256::from_be_bytes(aa.into_word().0) ^ (n(1) << k);
            who.push(Address::from_word(alloy_primitives::B256::from(x)));
        }
        c.enumerate(&format!("parties in callbacks{tag}"), "every one-bit neighbour of an account as operator, approved account and owner", &who, |x| {
            let s = mk(vec![n(4)], vec![aa, *x, acc]);
            script(&s, &[Op::Mint(aa, n(4)), Op::Safe(*x, aa, acc, n(4)), Op::SetAll(aa, *x, true), Op::Safe(*x, aa, acc, n(4)), Op::RawSafe(*x, acc, *x, n(4), 1), Op::SafeData(*x, *x, recv(R::Probe), n(4), 1), Op::RawSafe(aa, recv(R::Probe), *x, n(4), 1), Op::Approve(*x, aa, n(4)), Op::SafeData(aa, *x, acc, n(4), 3)]).map(|_| true)
        });
        // caller, holder and receiver coincide in every way
        let pool = &[aa, acc, recv(R::Probe), recv(R::RevertReason), recv(R::WrongValue)];
        let trio: Vec<(Address, Address, Address, usize)> = pool.iter().flat_map(|x| pool.iter().flat_map(move |y| pool.iter().flat_map(move |z| (0..5).map(move |k| (*x, *y, *z, k))))).collect();
        c.enumerate(&format!("coinciding parties{tag}"), "caller, holder and receiver drawn from a plain account and four kinds of contract in every combination, the caller being nobody, approved or an operator, and as the minter", &trio, |(by, from, to, k)| {
            let s = mk(vec![n(4), n(5)], vec![aa, bb, acc]);
            let mut ops = vec![Op::SafeMint(*by, *to, n(5), 2), Op::Mint(*from, n(4))];
            match k {
                0 => {}
                1 => ops.push(Op::Approve(*from, *by, n(4))),
                2 => ops.push(Op::SetAll(*from, *by, true)),
                3 => ops.extend([Op::SetAll(*by, *from, true), Op::Approve(*from, *to, n(4))]),
                _ => ops.extend([Op::SetAll(*from, *to, true), Op::RawSafe(*by, *from, *to, n(4), 1)]),
            }
            ops.extend([Op::Safe(*by, *from, *to, n(4)), Op::SafeData(*by, *to, *from, n(4), 2), Op::SafeData(*by, *from, *to, n(4), 3)]);
            script(&s, &ops).map(|_| true)
        });
        // what the receiver answers
        let sel = selector(mockrecv::S721);
        let items: Vec<(mockrecv::Answer, usize)> = mockrecv::answers(sel, c.q(100, 300)).into_iter().flat_map(|x| (0..3).map(move |k| (x, k))).collect();
        c.enumerate(&format!("receiver answers{tag}"), "every single-bit change and every shifted position of the acceptance value, answers and reverts of every length: accepted exactly for the acceptance value; reasons passed on", &items, |(x, k)| {
            let s = mk(vec![n(4)], vec![aa, bb]);
            let (wd, mut m) = s.init();
            with(|vm| {
                vm.world = wd;
                mockrecv::set_answer(&mut vm.world, x);
            });
            if *k > 0 {
                s.apply(&mut m, &Op::Mint(aa, n(4)))?;
            }
            let r = mockrecv::RAW;
            let (from, call) = match k {
                0 => (ZERO, cd("safeMint(address,uint256,bytes)", &[a(r), w(4), bytes(b"x")])),
                1 => (aa, cd("safeTransferFrom(address,address,uint256,bytes)", &[a(aa), a(r), w(4), bytes(b"x")])),
                _ => (aa, cd("rawSafeTransfer(address,address,uint256,bytes)", &[a(aa), a(r), w(4), bytes(b"x")])),
            };
            let before = with(|vm| vm.world.fingerprint());
            let what = format!("operation {k}, answer {x:?}");
            let ok = match mockrecv::judge(sel, x) {
                None => {
                    step(&what, aa, T, call, &Expect::Ok(vec![], vec![ev_move(T, from, r, n(4))]))?;
                    true
                }
                Some(e) => {
                    step(&what, aa, T, call, &Expect::Err(vec![e.unwrap_or_else(|| e_ireceiver(r))]))?;
                    false
                }
            };
            check_callback(T, r, Some(cd(mockrecv::S721, &[a(aa), a(from), w(4), bytes(b"x")]))).map_err(|e| format!("{what}: {e}"))?;
            if !ok && with(|vm| vm.world.fingerprint()) != before {
                return Err(format!("{what}: a refused token left a trace"));
            }
            Ok(ok)
        });
    }
}
pub fn c12(c: &mut Check) {
    let (aa, bb) = (addr(1), addr(2));
    let top = U256::from(U96::MAX);
    let mut conf: Vec<(U256, u64, Vec<U256>, &str, usize, usize)> = vec![
        (n(0), 3, (0..7).map(n).collect(), "first 0, max batch 3", 4, 6),
        (n(1), 3, (0..7).map(n).collect(), "first 1, max batch 3", 4, 6),
        (n(254), 3, (252..261).map(n).collect(), "first 254 (crossing a bitmap word), max batch 3", 4, 5),
        (n(5), 2, (4..10).map(n).collect(), "first 5, max batch 2", 4, 6),
        (top - n(3), 3, (0..6).map(|i| top - n(3) + n(i)).chain([n(0)]).collect(), "first 2^96-4, max batch 3", 4, 5),
    ];
    conf.push((n(2), 0, (1..5).map(n).collect(), "first 2, batches disabled", 3, 5));
    for (first, maxb, ids, name, qd, td) in conf {
        let mut s = sys(ids, vec![aa, bb, ZERO], gen_c12);
        s.con = true;
        s.first = U96::from(first);
        s.maxb = U96::from(maxb);
        s.deep_views = true;
        c.run(&format!("consecutive {name}"), "2 accounts and zero; batches of 0..4, single mints, burns, transfers, approvals around the range; all histories to the depth", &s, c.q(qd, td));
    }
    // large batches: exact range, recipient and balance at the default limit
    let items: Vec<(u64, u64, u64)> = [0u64, 1, 200].iter().flat_map(|f| [4999u64, 5000, 5001].into_iter().flat_map(move |x| [1u64, 4999, 5000].into_iter().map(move |y| (*f, x, y)))).collect();
    c.enumerate("large batches", "first {0,1,200} x two batches around the limit of 5000, ownership looked up at every boundary", &items, |(f, x, y)| {
        let mut s = sys(vec![], vec![aa, bb], gen_c12);
        s.con = true;
        s.first = U96::from(*f);
        s.maxb = U96::from(5000);
        let (wd, mut m) = s.init();
        with(|vm| vm.world = wd);
        let ok = s.apply(&mut m, &Op::Batch(aa, n(*x)))?;
        if ok != (*x <= 5000) {
            return Err("batch limit".into());
        }
        s.apply(&mut m, &Op::Batch(bb, n(*y)))?;
        let mx = if ok { *x } else { 0 };
        for id in [f.wrapping_sub(1), *f, f + 1, f + mx - 1, f + mx, f + mx + 1, f + mx + y - 1, f + mx + y, f + 255, f + 256, 5120] {
            let mut s2 = m.m.clone();
            s2.ops.clear();
            s2.check_views(&[aa, bb], &[n(id)])?;
        }
        // burn one in the middle and on both edges
        for id in [*f, f + mx, f + mx + y - 1, f + 255] {
            if m.m.o(n(id)).is_some() {
                s.apply(&mut m, &Op::Burn(n(id)))?;
            }
            m.m.check_views(&[aa, bb], &[n(id), n(id + 1), n(id.wrapping_sub(1))])?;
        }
        Ok(true)
    });
    // many batches: ownership of every identifier after every kind of history
    let top: u64 = c.q(40, 120);
    let items: Vec<(u64, u64, u64)> = (1..=top).flat_map(|k| [0u64, 1, 250].into_iter().flat_map(move |f| (0..3u64).map(move |p| (k, f, p)))).collect();
    c.enumerate("many batches", "1..40 (thorough 120) batches (sizes 1, cycling 1..5, cycling 0..7) to alternating accounts, first identifiers 0, 1, 250; then burns, transfers and approvals of every fourth token; the owner of every identifier", &items, |(k, f, p)| {
        let cc = addr(3);
        let size = |i: u64| match p {
            0 => 1,
            1 => i % 5 + 1,
            _ => i * 3 % 8,
        };
        let total: u64 = (0..*k).map(size).sum();
        let ids: Vec<U256> = (f.saturating_sub(1)..=f + total + 1).map(n).collect();
        let mut s = sys(ids, vec![aa, bb, cc], gen_c12);
        s.con = true;
        s.first = U96::from(*f);
        s.maxb = U96::from(8);
        let (wd, mut m) = s.init();
        with(|vm| vm.world = wd);
        for i in 0..*k {
            s.apply(&mut m, &Op::Batch([aa, bb, cc][(i * i % 3) as usize], n(size(i))))?;
        }
        s.check(&m)?;
        for id in *f..f + total {
            let o = m.m.o(n(id)).ok_or("model: no owner")?;
            match (id * 7 + k) % 8 {
                0 => s.apply(&mut m, &Op::BurnBy(o, n(id)))?,
                2 => s.apply(&mut m, &Op::TransferFrom(o, o, if o == cc { aa } else { cc }, n(id)))?,
                4 => s.apply(&mut m, &Op::Approve(o, if o == cc { aa } else { cc }, n(id)))?,
                _ => false,
            };
        }
        s.check(&m)?;
        // burned identifiers come back one by one, new batches go behind
        for id in *f..f + total {
            if m.m.o(n(id)).is_none() {
                s.apply(&mut m, &Op::Mint(bb, n(id)))?;
            }
        }
        s.apply(&mut m, &Op::Batch(cc, n(2)))?;
        s.check(&m)?;
        Ok(true)
    });
    // every first identifier and batch size around the word and type boundaries
    let mut firsts: Vec<U256> = (0..96).flat_map(|k| [(n(1) << k) - n(1), n(1) << k]).collect();
    firsts.extend([U256::from(U96::MAX) - n(9), U256::from(U96::MAX) - n(1), U256::from(U96::MAX)]);
    let items: Vec<(U256, u64)> = firsts.into_iter().flat_map(|f| [1u64, 2, 3, 8].into_iter().map(move |k| (f, k))).collect();
    c.enumerate("first identifiers", "first identifiers at every bit boundary of 96 bits, batches of 1, 2, 3, 8 to two accounts, then single mints around, burns and re-mints", &items, |(f, k)| {
        let ids: Vec<U256> = (0..20).map(|i| f.wrapping_add(n(i)).wrapping_sub(n(1))).collect();
        let mut s = sys(ids, vec![aa, bb], gen_c12);
        s.con = true;
        s.first = U96::from(*f);
        s.maxb = U96::from(8);
        let last = *f + n(*k) - n(1);
        script(
            &s,
            &[
                Op::Batch(aa, n(*k)),
                Op::Batch(bb, n(*k)),
                Op::Batch(bb, n(9)),
                Op::Batch(aa, n(1)),
                Op::TransferFrom(aa, aa, bb, *f),
                Op::BurnBy(aa, last),
                Op::BurnBy(bb, last),
                Op::BurnBy(bb, last + n(1)),
                Op::Mint(aa, last),
                Op::Mint(bb, last + n(1)),
                Op::Mint(bb, *f),
                Op::Mint(bb, last + n(*k) + n(1)),
                Op::Mint(aa, last + n(*k) + n(2)),
            ],
        )
        .map(|_| true)
    });
    wide_ids(c, true);
}

// ------------------------------------------------------------------- C11
#[derive(Clone, Debug)]
enum EOp {
    Mint(Address, U256),
    Burn(Address, U256),
    TransferFrom(Address, Address, Address, U256),
    Approve(Address, Address, U256),
}
struct EnSys {
    ids: Vec<U256>,
    who: Vec<Address>,
}
impl System for EnSys {
    type Model = M721;
    type Op = EOp;
    fn init(&self) -> (World, M721) {
        let mut wd = World::default();
        wd.acct(T).code = native!(En);
        (wd, M721::new(T))
    }
    fn ops(&self, m: &M721) -> Vec<EOp> {
        let mut v = vec![];
        for &id in &self.ids {
            for &x in &self.who {
                v.push(EOp::Mint(x, id));
                v.push(EOp::Burn(x, id));
                let from = m.o(id).unwrap_or(x);
                v.push(EOp::TransferFrom(from, from, x, id));
                v.push(EOp::TransferFrom(x, from, self.who[0], id));
            }
            v.push(EOp::Mint(ZERO, id));
            v.push(EOp::TransferFrom(m.o(id).unwrap_or(ZERO), m.o(id).unwrap_or(ZERO), ZERO, id));
            if let Some(o) = m.o(id) {
                v.push(EOp::Approve(o, self.who[1], id));
            }
        }
        v
    }
    fn apply(&self, m: &mut M721, op: &EOp) -> Result<bool, String> {
        let (r, by, call) = match *op {
            EOp::Mint(to, id) => (m.mint(to, id), self.who[0], cd("mint(address,uint256)", &[a(to), u(id)])),
            EOp::Burn(by, id) => (m.burn_by(by, id), by, cd("burn(uint256)", &[u(id)])),
            EOp::TransferFrom(by, f, t, id) => (m.transfer_from(by, f, t, id), by, cd("transferFrom(address,address,uint256)", &[a(f), a(t), u(id)])),
            EOp::Approve(by, to, id) => (m.approve(by, to, id), by, cd("approve(address,uint256)", &[a(to), u(id)])),
        };
        step(&format!("{op:?}"), by, T, call, &expect(&r, vec![]))?;
        Ok(r.is_ok())
    }
    fn check(&self, m: &M721) -> Result<(), String> {
        m.check_views(&self.who, &self.ids)?;
        check_enum(m, &self.who, self.who[0])
    }
}
/// Collections beyond the size of the full exploration: every size, every pair
/// of removed positions, given to another account or burned.
fn large_enum(c: &mut Check) {
    let (aa, bb) = (addr(1), addr(2));
    let mut items: Vec<(usize, usize, usize, usize)> = vec![];
    for len in 1..=c.q(14usize, 24) {
        for i in 0..len {
            for j in 0..len {
                if i != j {
                    for kind in 0..4 {
                        items.push((len, i, j, kind));
                    }
                }
            }
        }
    }
    c.enumerate("larger collections", "every size to the bound, every ordered pair of positions removed one after the other by burning or transfer, then minted or given back; both lists in full", &items, |(len, i, j, kind)| {
        let ids: Vec<U256> = (0..*len).map(|k| if k % 3 == 2 { U256::MAX - n(k as u64) } else { n(k as u64 + 1) }).collect();
        let s = EnSys { ids: ids.clone(), who: vec![aa, bb] };
        let mut ops: Vec<EOp> = ids.iter().map(|x| EOp::Mint(aa, *x)).collect();
        let (wd, mut m) = s.init();
        with(|vm| vm.world = wd);
        for (pos, burn) in [(*i, kind & 1 == 0), (*j, kind & 2 == 0)] {
            ops.push(if burn { EOp::Burn(aa, ids[pos]) } else { EOp::TransferFrom(aa, aa, bb, ids[pos]) });
        }
        ops.push(if kind & 1 == 0 { EOp::Mint(bb, ids[*i]) } else { EOp::TransferFrom(bb, bb, aa, ids[*i]) });
        ops.push(EOp::Burn(aa, ids[0]));
        for (k, op) in ops.iter().enumerate() {
            s.apply(&mut m, op).map_err(|e| format!("step {k}: {e}"))?;
            if k + 1 >= *len {
                s.check(&m).map_err(|e| format!("after step {k}, {op:?}: {e}"))?;
            }
        }
        Ok(true)
    });
    let items: Vec<u64> = vec![31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
    c.enumerate("collections around word sizes", "sizes around powers of two to 300 tokens, emptied from the front, the back and the middle", &items, |len| {
        for order in 0..3u64 {
            let ids: Vec<U256> = (0..*len).map(|k| n(k * 5 + 3)).collect();
            let s = EnSys { ids: vec![], who: vec![aa, bb] };
            let (wd, mut m) = s.init();
            with(|vm| vm.world = wd);
            for x in &ids {
                s.apply(&mut m, &EOp::Mint(aa, *x))?;
            }
            s.check(&m)?;
            let mut left: Vec<U256> = ids.clone();
            let mut k = 0;
            while !left.is_empty() {
                let p = match order {
                    0 => 0,
                    1 => left.len() - 1,
                    _ => left.len() / 2,
                };
                let x = left.remove(p);
                let op = if k % 2 == 0 { EOp::Burn(aa, x) } else { EOp::TransferFrom(aa, aa, bb, x) };
                s.apply(&mut m, &op)?;
                k += 1;
                if k % 37 == 0 || left.len() < 3 {
                    s.check(&m)?;
                }
            }
        }
        Ok(true)
    });
}
/// Identifiers, accounts and indices over their whole width.
fn wide_enum(c: &mut Check) {
    let (aa, bb) = (addr(1), addr(2));
    let mut ids = crate::e1155::bounds();
    ids.extend((0..256).map(|k| n(1) << k));
    ids.sort();
    ids.dedup();
    ids.retain(|x| *x > n(1));
    let items: Vec<(U256, usize)> = ids.iter().flat_map(|x| [0usize, 7, 8, 31, 32, 63, 64, 65, 96, 127, 128, 160, 192, 255].into_iter().map(move |k| (*x, k))).filter(|(x, k)| *x != n(1) << *k).collect();
    c.enumerate("wide identifiers", "every power of two and boundary value beside an identifier that differs in one bit: minted, moved, burned and minted again", &items, |(x, k)| {
        let y = *x ^ (n(1) << *k);
        let s = EnSys { ids: vec![*x, y, n(1)], who: vec![aa, bb] };
        let t = if y == n(1) { n(77) } else { n(1) };
        script(&s, &[EOp::Mint(aa, *x), EOp::Mint(aa, y), EOp::Mint(aa, t), EOp::TransferFrom(aa, aa, bb, *x), EOp::Burn(aa, y), EOp::Mint(bb, y), EOp::TransferFrom(bb, bb, aa, y), EOp::Burn(bb, *x), EOp::Mint(aa, *x), EOp::TransferFrom(aa, aa, aa, t), EOp::Burn(aa, t), EOp::Burn(aa, y), EOp::Burn(aa, *x)]).map(|_| true)
    });
    let items: Vec<(usize, Address)> = (0..160).flat_map(|k| [aa, T, ZERO].into_iter().map(move |x| (k, Address::from_word(alloy_primitives::B256::from(U256::from_be_bytes(x.into_word().0) ^ (n(1) << k)))))).chain([(0, T)]).filter(|x| x.1 != aa).collect();
    c.enumerate("holders", "every one-bit address, every one-bit neighbour of a holder and of the collection, and the collection itself, as second holder", &items, |(_, x)| {
        let s = EnSys { ids: vec![n(1), n(2), n(3)], who: vec![aa, *x] };
        script(&s, &[EOp::Mint(aa, n(1)), EOp::Mint(*x, n(2)), EOp::Mint(aa, n(3)), EOp::TransferFrom(*x, *x, aa, n(2)), EOp::TransferFrom(aa, aa, *x, n(1)), EOp::TransferFrom(aa, aa, *x, n(3)), EOp::TransferFrom(*x, *x, *x, n(1)), EOp::Burn(*x, n(1)), EOp::Burn(*x, n(2)), EOp::Burn(aa, n(2))]).map(|_| true)
    });
    let items: Vec<(usize, u64)> = (0..256).flat_map(|k| [1u64, 3, 5].into_iter().map(move |l| (k, l))).collect();
    c.enumerate("wide indices", "index i and index i plus every power of two, i to beyond the size, of collections of 1, 3 and 5 tokens: in range or out of bounds, never reduced", &items, |(k, l)| {
        let s = EnSys { ids: (0..*l).map(|i| n(i * 9 + 2)).collect(), who: vec![aa, bb] };
        let ops: Vec<EOp> = s.ids.iter().map(|x| EOp::Mint(aa, *x)).collect();
        script(&s, &ops)?;
        for i in 0..=*l {
            let j = n(i).wrapping_add(n(1) << *k);
            for (sig, args, o) in [("tokenByIndex(uint256)", vec![u(j)], ZERO), ("tokenOfOwnerByIndex(address,uint256)", vec![a(aa), u(j)], aa), ("tokenOfOwnerByIndex(address,uint256)", vec![a(bb), u(j)], bb)] {
                let what = format!("{sig} for {o} at {j} of {l}");
                if o != bb && j < n(*l) {
                    let out = host::view(aa, T, cd(sig, &args));
                    if !out.ok || !s.ids.contains(&word_at(&out.data, 0).ok_or("short answer")?) {
                        return Err(format!("{what} answered {}", show(&out.data)));
                    }
                } else {
                    must_fail_view(&what, aa, T, cd(sig, &args), &[cd("ERC721OutOfBoundsIndex(address,uint256)", &[a(o), u(j)])])?;
                }
            }
        }
        Ok(true)
    });
}
pub fn c11(c: &mut Check) {
    let (aa, bb, cc) = (addr(1), addr(2), addr(3));
    let s = EnSys { ids: vec![n(1), n(2), n(300), U256::MAX], who: vec![aa, bb] };
    c.run("enumerable 4 ids 2 owners", "ids {1,2,300,max}, 2 accounts: mint, burn, transfer (also to itself), approve; all histories to the depth", &s, c.q(7, 30));
    let s = EnSys { ids: vec![n(1), n(2), n(3)], who: vec![aa, bb, cc] };
    c.run("enumerable 3 ids 3 owners", "ids {1,2,3}, 3 accounts; all histories to the depth", &s, c.q(7, 30));
    let s = EnSys { ids: vec![n(0), n(1), n(2)], who: vec![aa, bb] };
    c.run("enumerable with id 0", "ids {0,1,2}, 2 accounts; all histories to the depth", &s, c.q(6, 30));
    if ID0.load(Ordering::Relaxed) > 0 {
        c.finding("token-id-zero", "tokenOfOwnerByIndex fails with ERC721OutOfBoundsIndex for an index that holds token id 0 (mint(alice, 0); tokenOfOwnerByIndex(alice, 0))".into());
    }
    large_enum(c);
    wide_enum(c);
    let items = [0u128, 1, 2, u64::MAX as u128, u128::MAX];
    c.enumerate("batch mint refusal", "the balance-increase hook refuses every positive amount", &items, |v| {
        let mut wd = World::default();
        wd.acct(T).code = native!(En);
        with(|vm| vm.world = wd);
        let d = cd("checkIncrease(uint256)", &[u(U256::from(*v))]);
        if *v == 0 {
            must_view("check_increase", addr(1), T, d, &[])?;
        } else {
            must_fail_view("check_increase", addr(1), T, d, &[cd("ERC721EnumerableForbiddenBatchMint()", &[])])?;
        }
        Ok(true)
    });
}

// ------------------------------------------------------------------- C13
#[derive(Clone, Debug)]
enum WOp {
    MintU(Address, U256),
    ApproveU(Address, U256),
    AllU(Address, bool),
    Deposit(Address, Address, Vec<U256>),
    Withdraw(Address, Address, Vec<U256>),
    SafeIn(Address, U256),
    /// a third party sends another's token in, with data
    SafeBy(Address, Address, U256),
    /// the collection mints a token straight to the wrapper
    SafeMintIn(Address, U256),
    /// operator of the underlying tokens
    OpU(Address, Address, bool),
    PlainIn(Address, U256),
    MoveU(Address, Address, U256),
    MoveW(Address, Address, U256),
    ApproveW(Address, Address, U256),
    AllW(Address, Address, bool),
    FakeCallback(Address, Address, U256),
    Recover(Address, Address, U256),
}
struct WSys {
    ids: Vec<U256>,
    who: Vec<Address>,
    wide: bool,
}
#[derive(Clone, Hash)]
struct WM {
    und: M721,
    wr: M721,
}
fn e_unsupported(x: Address) -> Vec<u8> {
    cd("ERC721UnsupportedToken(address)", &[a(x)])
}
impl WM {
    /// answer of the callback when `to` gets a wrapped token (None: accepts)
    fn wrapped_rejects(&self, to: Address) -> Option<Vec<u8>> {
        if let Some(r) = mockrecv::rejects(to, mockrecv::S721) {
            return Some(r.unwrap_or_else(|| e_ireceiver(to)));
        }
        match to {
            WRAP => Some(e_unsupported(WRAP)), // the wrapper is not its own collection
            UND => Some(e_ireceiver(UND)),     // no callback
            _ => None,
        }
    }
    fn safe_mint_w(&mut self, to: Address, id: U256) -> Step {
        let mut t = self.wr.clone();
        let l = t.mint(to, id)?;
        if let Some(e) = self.wrapped_rejects(to) {
            return Err(vec![e]);
        }
        self.wr = t;
        Ok(l)
    }
    fn deposit(&mut self, by: Address, acct: Address, ids: &[U256]) -> Step {
        let save = self.clone();
        let mut logs = vec![];
        for id in ids {
            // the underlying is called by the wrapper
            let r = self.und.transfer_from(WRAP, by, WRAP, *id);
            let r = match r {
                Ok(l) => {
                    logs.extend(l);
                    self.safe_mint_w(acct, *id)
                }
                Err(e) => Err(e),
            };
            match r {
                Ok(l) => logs.extend(l),
                Err(e) => {
                    *self = save;
                    return Err(e);
                }
            }
        }
        Ok(logs)
    }
    /// wrapping of a token that came in by a plain transfer
    fn recover(&mut self, acct: Address, id: U256) -> Step {
        match self.und.o(id) {
            None => Err(vec![cd("Erc721FailedOperation(address)", &[a(UND)])]),
            Some(o) if o != WRAP => Err(vec![cd("ERC721IncorrectOwner(address,uint256,address)", &[a(WRAP), u(id), a(o)])]),
            Some(_) => self.safe_mint_w(acct, id),
        }
    }
    /// safe transfer inside the underlying collection, `by` calling
    fn safe_u(&mut self, by: Address, from: Address, to: Address, id: U256) -> Step {
        let save = self.clone();
        let mut logs = self.und.transfer_from(by, from, to, id)?;
        if let Some(r) = mockrecv::rejects(to, mockrecv::S721) {
            *self = save;
            return Err(vec![r.unwrap_or_else(|| e_ireceiver(to))]);
        }
        if to == UND {
            *self = save;
            return Err(vec![e_ireceiver(UND)]);
        }
        if to == WRAP {
            match self.safe_mint_w(from, id) {
                Ok(l) => logs.extend(l),
                Err(e) => {
                    *self = save;
                    return Err(e);
                }
            }
        }
        Ok(logs)
    }
    /// a safe mint of an underlying token to the wrapper: nobody sent it, so
    /// nobody can be given the wrapped one
    fn safe_mint_in(&mut self, id: U256) -> Step {
        self.und.clone().mint(WRAP, id)?;
        self.clone().safe_mint_w(ZERO, id)
    }
    fn withdraw(&mut self, by: Address, acct: Address, ids: &[U256]) -> Step {
        let save = self.clone();
        let mut logs = vec![];
        for id in ids {
            let r = match self.wr.burn_by(by, *id) {
                Ok(l) => {
                    logs.extend(l);
                    self.safe_u(WRAP, WRAP, acct, *id)
                }
                Err(e) => Err(e),
            };
            match r {
                Ok(l) => logs.extend(l),
                Err(e) => {
                    *self = save;
                    return Err(e);
                }
            }
        }
        Ok(logs)
    }
}
impl System for WSys {
    type Model = WM;
    type Op = WOp;
    fn init(&self) -> (World, WM) {
        let mut wd = World::default();
        wd.acct(UND).code = native!(Nft);
        wd.acct(WRAP).code = native!(Wrapped);
        wd.set_slot(WRAP, 4, U256::from_be_bytes(UND.into_word().0));
        mockrecv::install(&mut wd);
        (wd, WM { und: M721::new(UND), wr: M721::new(WRAP) })
    }
    fn ops(&self, _m: &WM) -> Vec<WOp> {
        let mut v = vec![];
        let accts = &self.who;
        let (aa, bb) = (accts[0], accts[1]);
        let rej = [recv(R::RevertReason), recv(R::WrongValue), recv(R::Accept)];
        let mut sets: Vec<Vec<U256>> = self.ids.iter().map(|i| vec![*i]).collect();
        if self.ids.len() > 1 {
            sets.push(vec![self.ids[0], self.ids[1]]);
            sets.push(vec![self.ids[1], self.ids[0]]);
        }
        sets.push(vec![self.ids[0], self.ids[0]]);
        for &x in &[aa, bb] {
            v.push(WOp::AllU(x, true));
            v.push(WOp::AllU(x, false));
            for set in sets.iter().chain([&vec![]]) {
                for &t in &[aa, bb, ZERO, rej[2]] {
                    v.push(WOp::Deposit(x, t, set.clone()));
                    v.push(WOp::Withdraw(x, t, set.clone()));
                }
                for t in [WRAP, UND, rej[0], rej[1]] {
                    v.push(WOp::Deposit(x, t, set.clone()));
                    v.push(WOp::Withdraw(x, t, set.clone()));
                }
            }
            for &id in &self.ids {
                v.push(WOp::MintU(x, id));
                v.push(WOp::ApproveU(x, id));
                v.push(WOp::SafeIn(x, id));
                v.push(WOp::PlainIn(x, id));
                for t in [x, ZERO, WRAP, rej[0], rej[2]] {
                    v.push(WOp::Recover(aa, t, id));
                }
                let o = if x == aa { bb } else { aa };
                v.push(WOp::MoveW(x, o, id));
                v.push(WOp::ApproveW(x, o, id));
                v.push(WOp::SafeMintIn(x, id));
                v.push(WOp::SafeBy(x, o, id));
                if self.wide {
                    v.push(WOp::MoveU(x, o, id));
                    v.push(WOp::FakeCallback(x, x, id));
                    v.push(WOp::FakeCallback(WRAP, x, id));
                }
            }
            if self.wide {
                v.push(WOp::OpU(x, if x == aa { bb } else { aa }, true));
                v.push(WOp::OpU(x, if x == aa { bb } else { aa }, false));
                v.push(WOp::AllW(x, if x == aa { bb } else { aa }, true));
                v.push(WOp::AllW(x, if x == aa { bb } else { aa }, false));
            }
        }
        v
    }
    fn apply(&self, m: &mut WM, op: &WOp) -> Result<bool, String> {
        let rt = enc(&[b(true)]);
        let (r, by, to, call, ret) = match op.clone() {
            WOp::MintU(x, id) => (m.und.mint(x, id), x, UND, cd("mint(address,uint256)", &[a(x), u(id)]), vec![]),
            WOp::ApproveU(x, id) => (m.und.approve(x, WRAP, id), x, UND, cd("approve(address,uint256)", &[a(WRAP), u(id)]), vec![]),
            WOp::AllU(x, f) => (m.und.set_all(x, WRAP, f), x, UND, cd("setApprovalForAll(address,bool)", &[a(WRAP), b(f)]), vec![]),
            WOp::Deposit(x, t, ids) => (m.deposit(x, t, &ids), x, WRAP, cd("depositFor(address,uint256[])", &[a(t), us(&ids)]), rt),
            WOp::Withdraw(x, t, ids) => (m.withdraw(x, t, &ids), x, WRAP, cd("withdrawTo(address,uint256[])", &[a(t), us(&ids)]), rt),
            WOp::SafeIn(x, id) => (m.safe_u(x, x, WRAP, id), x, UND, cd("safeTransferFrom(address,address,uint256)", &[a(x), a(WRAP), u(id)]), vec![]),
            WOp::SafeBy(x, o, id) => (m.safe_u(x, o, WRAP, id), x, UND, cd("safeTransferFrom(address,address,uint256,bytes)", &[a(o), a(WRAP), u(id), bytes(&enc(&[a(x)]))]), vec![]),
            WOp::SafeMintIn(x, id) => (m.safe_mint_in(id), x, UND, cd("safeMint(address,uint256,bytes)", &[a(WRAP), u(id), bytes(&enc(&[a(x)]))]), vec![]),
            WOp::OpU(x, o, f) => (m.und.set_all(x, o, f), x, UND, cd("setApprovalForAll(address,bool)", &[a(o), b(f)]), vec![]),
            WOp::PlainIn(x, id) => (m.und.transfer_from(x, x, WRAP, id), x, UND, cd("transferFrom(address,address,uint256)", &[a(x), a(WRAP), u(id)]), vec![]),
            WOp::Recover(x, t, id) => (m.recover(t, id), x, WRAP, cd("recover(address,uint256)", &[a(t), u(id)]), enc(&[u(id)])),
            WOp::MoveU(x, o, id) => (m.und.transfer_from(x, x, o, id), x, UND, cd("transferFrom(address,address,uint256)", &[a(x), a(o), u(id)]), vec![]),
            WOp::MoveW(x, o, id) => (m.wr.transfer_from(x, x, o, id), x, WRAP, cd("transferFrom(address,address,uint256)", &[a(x), a(o), u(id)]), vec![]),
            WOp::ApproveW(x, o, id) => (m.wr.approve(x, o, id), x, WRAP, cd("approve(address,uint256)", &[a(o), u(id)]), vec![]),
            WOp::AllW(x, o, f) => (m.wr.set_all(x, o, f), x, WRAP, cd("setApprovalForAll(address,bool)", &[a(o), b(f)]), vec![]),
            WOp::FakeCallback(by, from, id) => {
                (Err(vec![e_unsupported(by)]), by, WRAP, cd(mockrecv::S721, &[a(by), a(from), u(id), bytes(b"x")]), vec![])
            }
        };
        step(&format!("{op:?}"), by, to, call, &expect(&r, ret))?;
        Ok(r.is_ok())
    }
    fn check(&self, m: &WM) -> Result<(), String> {
        let who = [self.who[0], self.who[1], WRAP, recv(R::Accept)];
        m.und.check_views(&who, &self.ids)?;
        m.wr.check_views(&who, &self.ids)?;
        must_view("underlying()", who[0], WRAP, cd("underlying()", &[]), &enc(&[a(UND)]))?;
        for id in m.wr.owner.keys() {
            if m.und.o(*id) != Some(WRAP) {
                return Err(format!("model: wrapped {id} is not backed"));
            }
        }
        Ok(())
    }
}
/// An underlying collection that refuses in different ways.
fn refusing(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    if input.len() >= 4 && input[..4] == selector("ownerOf(uint256)") {
        return Ok(enc(&[a(WRAP)]));
    }
    match host::my_slot(0).to::<u64>() {
        0 => Err(vec![]),
        1 => Err(mockrecv::reason()),
        2 => panic!("underlying ran out of gas"),
        _ => Ok(vec![]),
    }
}
/// An underlying collection whose `ownerOf` misbehaves.
fn odd_owner(_input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    match host::my_slot(0).to::<u64>() {
        0 => Err(vec![]),
        1 => Err(mockrecv::reason()),
        2 => panic!("underlying ran out of gas"),
        3 => Ok(vec![]),
        4 => Ok(vec![0; 31]),
        5 => Ok(vec![0xff; 32]),
        6 => Ok(enc(&[a(addr(9))])),
        _ => Ok(enc(&[a(WRAP)])),
    }
}
pub fn c13(c: &mut Check) {
    let (aa, bb) = (addr(1), addr(2));
    let s = WSys { ids: vec![n(4)], who: vec![aa, bb], wide: true };
    c.run("wrapper one token", "1 underlying token, 2 accounts, rejecting and accepting receivers, direct transfers in, fake callbacks; all histories to a fixed point", &s, 40);
    let s = WSys { ids: vec![n(0), n(4)], who: vec![aa, bb], wide: false };
    c.run("wrapper two tokens", "2 underlying tokens, lists of 0, 1 and 2 identifiers with repetition; all histories to the depth", &s, c.q(7, 20));
    let items: Vec<(usize, usize, usize)> = (0..=c.q(20usize, 60)).chain([33, 64, 65]).flat_map(|l| (0..=l).flat_map(move |bad| (0..3).map(move |k| (l, bad, k)))).filter(|x| x.0 <= 20 || x.1 % 8 == 0 || x.1 + 1 >= x.0).collect();
    c.enumerate("long lists", "lists of 0..20 (thorough 60), 33, 64, 65 identifiers with one identifier at any position missing, foreign or repeated: all or nothing", &items, |(l, bad, k)| {
        let ids: Vec<U256> = (0..*l as u64).map(|i| n(i * 3 + 1)).collect();
        let s = WSys { ids: ids.iter().copied().chain([n(0)]).collect(), who: vec![aa, bb], wide: false };
        let (wd, mut m) = s.init();
        with(|vm| vm.world = wd);
        for (i, id) in ids.iter().enumerate() {
            if i != *bad || *k > 0 {
                s.apply(&mut m, &WOp::MintU(if i == *bad && *k == 1 { bb } else { aa }, *id))?;
            }
        }
        s.apply(&mut m, &WOp::AllU(aa, true))?;
        s.apply(&mut m, &WOp::AllU(bb, true))?;
        let mut list = ids.clone();
        if *k == 2 && *bad < *l {
            list[*bad] = list[(*bad + 1) % *l];
        }
        s.apply(&mut m, &WOp::Deposit(aa, bb, list))?;
        s.check(&m)?;
        let good: Vec<U256> = ids.iter().copied().filter(|i| m.und.o(*i) == Some(aa)).collect();
        s.apply(&mut m, &WOp::Deposit(aa, bb, good.clone()))?;
        s.check(&m)?;
        let mut back: Vec<U256> = m.wr.owner.keys().copied().rev().collect();
        s.apply(&mut m, &WOp::Withdraw(aa, aa, back.clone()))?;
        if *bad < back.len() {
            let keep = back[*bad];
            back[*bad] = n(0);
            s.apply(&mut m, &WOp::Withdraw(bb, aa, back.clone()))?;
            s.check(&m)?;
            back[*bad] = keep;
        }
        s.apply(&mut m, &WOp::Withdraw(bb, aa, back))?;
        s.check(&m)?;
        Ok(true)
    });
    let mut ids = crate::e1155::bounds();
    ids.extend((0..256).map(|k| n(1) << k));
    ids.sort();
    ids.dedup();
    let items: Vec<(U256, usize)> = ids.iter().flat_map(|x| [0usize, 8, 63, 64, 127, 128, 160, 255].into_iter().map(move |k| (*x, k))).collect();
    c.enumerate("wide identifiers", "every power of two and boundary value beside an identifier that differs in one bit: deposit, callback deposit, recovery, withdrawal", &items, |(x, k)| {
        let y = *x ^ (n(1) << *k);
        let s = WSys { ids: vec![*x, y], who: vec![aa, bb], wide: false };
        script(
            &s,
            &[
                WOp::MintU(aa, *x),
                WOp::MintU(aa, y),
                WOp::ApproveU(aa, *x),
                WOp::Deposit(aa, bb, vec![*x]),
                WOp::Withdraw(bb, bb, vec![y]),
                WOp::Recover(bb, bb, y),
                WOp::Recover(bb, bb, *x),
                WOp::SafeIn(aa, y),
                WOp::Withdraw(bb, aa, vec![y]),
                WOp::Withdraw(aa, bb, vec![*x, y]),
                WOp::MoveW(bb, aa, *x),
                WOp::Withdraw(aa, bb, vec![*x, y]),
                WOp::Withdraw(bb, bb, vec![*x]),
                WOp::PlainIn(bb, *x),
                WOp::Withdraw(bb, bb, vec![*x]),
                WOp::Recover(aa, aa, *x),
                WOp::Withdraw(aa, aa, vec![*x]),
            ],
        )
        .map(|_| true)
    });
    let items: Vec<(usize, Address)> = (0..160).flat_map(|k| [aa, WRAP, UND, ZERO].into_iter().map(move |x| (k, Address::from_word(alloy_primitives::B256::from(U256::from_be_bytes(x.into_word().0) ^ (n(1) << k)))))).collect();
    c.enumerate("accounts", "every one-bit neighbour of a holder, of the wrapper, of the collection and of zero: as beneficiary, as caller, as source of a fake callback", &items, |(_, x)| {
        let s = WSys { ids: vec![n(4)], who: vec![*x, bb], wide: true };
        script(
            &s,
            &[
                WOp::MintU(bb, n(4)),
                WOp::FakeCallback(*x, bb, n(4)),
                WOp::ApproveU(bb, n(4)),
                WOp::Deposit(*x, *x, vec![n(4)]),
                WOp::Deposit(bb, *x, vec![n(4)]),
                WOp::FakeCallback(*x, *x, n(4)),
                WOp::SafeMintIn(*x, n(4)),
                WOp::SafeMintIn(*x, n(5)),
                WOp::Withdraw(bb, bb, vec![n(4)]),
                WOp::Withdraw(*x, *x, vec![n(4)]),
                WOp::PlainIn(*x, n(4)),
                WOp::Recover(bb, *x, n(4)),
                WOp::ApproveW(*x, bb, n(4)),
                WOp::Withdraw(bb, *x, vec![n(4)]),
            ],
        )
        .map(|_| true)
    });
    let items: Vec<(u64, bool)> = (0..4).flat_map(|x| [(x, false), (x, true)]).collect();
    c.enumerate("refusing collections", "deposit and withdrawal against a collection that reverts, reverts with a reason, runs out of gas, or (control) agrees", &items, |(mode, dep)| {
        let s = WSys { ids: vec![n(4)], who: vec![aa, bb], wide: true };
        let (wd, mut m) = s.init();
        with(|vm| vm.world = wd);
        if !*dep {
            s.apply(&mut m, &WOp::MintU(aa, n(4)))?;
            s.apply(&mut m, &WOp::SafeIn(aa, n(4)))?;
        }
        with(|vm| {
            vm.world.acct(UND).code = Code::Native(refusing);
            vm.world.set_slot(UND, 0, n(*mode));
        });
        let call = if *dep { cd("depositFor(address,uint256[])", &[a(bb), us(&[n(4)])]) } else { cd("withdrawTo(address,uint256[])", &[a(bb), us(&[n(4)])]) };
        let failed = cd("Erc721FailedOperation(address)", &[a(UND)]);
        let before = with(|vm| vm.world.fingerprint());
        let ex = match mode {
            1 => Expect::Err(vec![mockrecv::reason()]),
            3 => Expect::Ok(enc(&[b(true)]), vec![if *dep { ev_move(WRAP, ZERO, bb, n(4)) } else { ev_move(WRAP, aa, ZERO, n(4)) }]),
            _ => Expect::Err(vec![failed]),
        };
        step(&format!("mode {mode} deposit {dep}"), aa, WRAP, call, &ex)?;
        if *mode != 3 && with(|vm| vm.world.fingerprint()) != before {
            return Err("a refused operation changed the state".into());
        }
        Ok(*mode == 3)
    });
    let items: Vec<(u64, Address)> = (0..8).flat_map(|m| [(m, aa), (m, recv(R::Accept))]).collect();
    c.enumerate("recovery from odd collections", "recovery against a collection whose ownerOf reverts, reverts with a reason, runs out of gas, answers nothing, too little or a non-address, names somebody else, or (control) names the wrapper", &items, |(mode, to)| {
        let s = WSys { ids: vec![n(4)], who: vec![aa, bb], wide: true };
        let (wd, _m) = s.init();
        with(|vm| {
            vm.world = wd;
            vm.world.acct(UND).code = Code::Native(odd_owner);
            vm.world.set_slot(UND, 0, n(*mode));
        });
        let before = with(|vm| vm.world.fingerprint());
        let ex = match mode {
            6 => Expect::Err(vec![cd("ERC721IncorrectOwner(address,uint256,address)", &[a(WRAP), u(n(4)), a(addr(9))])]),
            7 => Expect::Ok(enc(&[u(n(4))]), vec![ev_move(WRAP, ZERO, *to, n(4))]),
            _ => Expect::Err(vec![cd("Erc721FailedOperation(address)", &[a(UND)])]),
        };
        step(&format!("recover, mode {mode}"), aa, WRAP, cd("recover(address,uint256)", &[a(*to), u(n(4))]), &ex)?;
        if *mode != 7 && with(|vm| vm.world.fingerprint()) != before {
            return Err("a refused recovery changed the state".into());
        }
        Ok(*mode == 7)
    });
}

