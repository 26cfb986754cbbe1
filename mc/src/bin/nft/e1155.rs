//! C15, C16, C17 and the ERC-1155 part of C10.
use alloy_primitives::{Address, U256};
use mc::abi::*;
use mc::erc1155ref::*;
use mc::erc20ref::{expect, Step};
use mc::erc721ref::check_callback;
use mc::mockrecv::{self, recv, R};
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::token::erc1155::{
    self,
    extensions::{Erc1155Supply, IErc1155Burnable, IErc1155Supply},
    Erc1155,
};
use stylus_sdk::{abi::Bytes, prelude::*};

const T: Address = Address::new([0x75; 20]);
const ZERO: Address = Address::ZERO;

#[storage]
struct Multi {
    #[borrow]
    erc1155: Erc1155,
}
unsafe impl TopLevelStorage for Multi {}
#[public]
#[inherit(Erc1155)]
impl Multi {
    fn mint(&mut self, to: Address, id: U256, v: U256, data: Bytes) -> Result<(), erc1155::Error> {
        self.erc1155._mint(to, id, v, &data)
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, vs: Vec<U256>, data: Bytes) -> Result<(), erc1155::Error> {
        self.erc1155._mint_batch(to, ids, vs, &data)
    }
    fn raw_burn(&mut self, from: Address, id: U256, v: U256) -> Result<(), erc1155::Error> {
        self.erc1155._burn(from, id, v)
    }
    fn raw_burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> Result<(), erc1155::Error> {
        self.erc1155._burn_batch(from, ids, vs)
    }
    fn burn(&mut self, from: Address, id: U256, v: U256) -> Result<(), erc1155::Error> {
        self.erc1155.burn(from, id, v)
    }
    fn burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> Result<(), erc1155::Error> {
        self.erc1155.burn_batch(from, ids, vs)
    }
}

#[storage]
struct Tracked {
    #[borrow]
    sup: Erc1155Supply,
}
unsafe impl TopLevelStorage for Tracked {}
#[public]
#[inherit(Erc1155Supply)]
impl Tracked {
    fn mint(&mut self, to: Address, id: U256, v: U256, data: Bytes) -> Result<(), erc1155::Error> {
        self.sup._mint(to, id, v, &data)
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, vs: Vec<U256>, data: Bytes) -> Result<(), erc1155::Error> {
        self.sup._mint_batch(to, ids, vs, &data)
    }
    fn raw_burn(&mut self, from: Address, id: U256, v: U256) -> Result<(), erc1155::Error> {
        self.sup._burn(from, id, v)
    }
    fn raw_burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> Result<(), erc1155::Error> {
        self.sup._burn_batch(from, ids, vs)
    }
    fn total_supply(&self, id: U256) -> U256 {
        IErc1155Supply::total_supply(&self.sup, id)
    }
    #[selector(name = "totalSupply")]
    fn total_supply_all(&self) -> U256 {
        IErc1155Supply::total_supply_all(&self.sup)
    }
    fn exists(&self, id: U256) -> bool {
        self.sup.exists(id)
    }
}

fn n(v: u64) -> U256 {
    U256::from(v)
}

#[derive(Clone, Debug)]
pub enum Op {
    Mint(Address, Address, U256, U256, usize),
    MintBatch(Address, Address, Vec<U256>, Vec<U256>, usize),
    RawBurn(Address, U256, U256),
    RawBurnBatch(Address, Vec<U256>, Vec<U256>),
    Burn(Address, Address, U256, U256),
    BurnBatch(Address, Address, Vec<U256>, Vec<U256>),
    Transfer(Address, Address, Address, U256, U256, usize),
    TransferBatch(Address, Address, Address, Vec<U256>, Vec<U256>, usize),
    SetAll(Address, Address, bool),
}
/// Payload `d`: one of the fixed ones, or one of `d - DATA.len()` bytes.
fn payload(d: usize) -> Vec<u8> {
    match DATA.get(d) {
        Some(x) => x.to_vec(),
        None => (0..d - DATA.len()).map(|i| (i * 7 + 1) as u8).collect(),
    }
}
const DATA: [&[u8]; 3] = [b"", b"\x01", b"a payload that is longer than thirty-two bytes"];

struct Sys {
    supply: bool,
    ids: Vec<U256>,
    who: Vec<Address>,
    gen: fn(&Sys, &M1155) -> Vec<Op>,
    vals: Vec<U256>,
}
impl Sys {
    #[allow(clippy::too_many_arguments)]
    fn fin(&self, m: &mut M1155, before: &M1155, r: Step, what: &str, by: Address, from: Address, to: Address, ids: &[U256], vals: &[U256], data: &[u8], call: Vec<u8>) -> Result<bool, String> {
        let base_ok = r.is_ok();
        let single = ids.len() == 1;
        let r = m.accept(r, before, to, single);
        step(what, by, T, call, &expect(&r, vec![]))?;
        let has_code = mockrecv::mode_of(to).is_some() || to == T;
        if base_ok && has_code {
            let d = if single {
                cd(mockrecv::S1155, &[a(by), a(from), u(ids[0]), u(vals[0]), bytes(data)])
            } else {
                cd(mockrecv::S1155B, &[a(by), a(from), us(ids), us(vals), bytes(data)])
            };
            check_callback(T, to, Some(d)).map_err(|e| format!("{what}: {e}"))?;
            if mockrecv::mode_of(to) == Some(R::Probe) {
                let seen: Vec<Vec<u8>> = with(|vm| vm.calls.iter().filter(|c| c.from == to).map(|c| c.ret.clone()).collect());
                let want: Vec<Vec<u8>> = ids.iter().map(|i| enc(&[u(m.b(*i, to))])).collect();
                if seen != want {
                    return Err(format!("{what}: during the callback the receiver saw balances {seen:?} instead of {want:?}"));
                }
            }
        } else {
            check_callback(T, to, None).map_err(|e| format!("{what}: {e}"))?;
        }
        Ok(r.is_ok())
    }
}
impl System for Sys {
    type Model = M1155;
    type Op = Op;
    fn init(&self) -> (World, M1155) {
        let mut wd = World::default();
        wd.acct(T).code = if self.supply { native!(Tracked) } else { native!(Multi) };
        mockrecv::install(&mut wd);
        (wd, M1155::new(T, self.supply))
    }
    fn ops(&self, m: &M1155) -> Vec<Op> {
        (self.gen)(self, m)
    }
    fn apply(&self, m: &mut M1155, op: &Op) -> Result<bool, String> {
        let what = format!("{op:?}");
        let before = m.clone();
        let any = self.who[0];
        match op {
            Op::Mint(by, to, id, v, d) => {
                let r = m.mint(*by, *to, &[*id], &[*v]);
                let call = cd("mint(address,uint256,uint256,bytes)", &[a(*to), u(*id), u(*v), bytes(&payload(*d))]);
                self.fin(m, &before, r, &what, *by, ZERO, *to, &[*id], &[*v], &payload(*d), call)
            }
            Op::MintBatch(by, to, ids, vs, d) => {
                let r = m.mint(*by, *to, ids, vs);
                let call = cd("mintBatch(address,uint256[],uint256[],bytes)", &[a(*to), us(ids), us(vs), bytes(&payload(*d))]);
                self.fin(m, &before, r, &what, *by, ZERO, *to, ids, vs, &payload(*d), call)
            }
            Op::Transfer(by, f, to, id, v, d) => {
                let r = m.transfer(*by, *f, *to, &[*id], &[*v]);
                let call = cd("safeTransferFrom(address,address,uint256,uint256,bytes)", &[a(*f), a(*to), u(*id), u(*v), bytes(&payload(*d))]);
                self.fin(m, &before, r, &what, *by, *f, *to, &[*id], &[*v], &payload(*d), call)
            }
            Op::TransferBatch(by, f, to, ids, vs, d) => {
                let r = m.transfer(*by, *f, *to, ids, vs);
                let call = cd("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", &[a(*f), a(*to), us(ids), us(vs), bytes(&payload(*d))]);
                self.fin(m, &before, r, &what, *by, *f, *to, ids, vs, &payload(*d), call)
            }
            Op::RawBurn(f, id, v) => {
                let r = m.burn(any, *f, &[*id], &[*v], false);
                self.plain(r, &what, any, cd("rawBurn(address,uint256,uint256)", &[a(*f), u(*id), u(*v)]))
            }
            Op::RawBurnBatch(f, ids, vs) => {
                let r = m.burn(any, *f, ids, vs, false);
                self.plain(r, &what, any, cd("rawBurnBatch(address,uint256[],uint256[])", &[a(*f), us(ids), us(vs)]))
            }
            Op::Burn(by, f, id, v) => {
                let r = m.burn(*by, *f, &[*id], &[*v], true);
                self.plain(r, &what, *by, cd("burn(address,uint256,uint256)", &[a(*f), u(*id), u(*v)]))
            }
            Op::BurnBatch(by, f, ids, vs) => {
                let r = m.burn(*by, *f, ids, vs, true);
                self.plain(r, &what, *by, cd("burnBatch(address,uint256[],uint256[])", &[a(*f), us(ids), us(vs)]))
            }
            Op::SetAll(by, o, v) => {
                let r = m.set_all(*by, *o, *v);
                self.plain(r, &what, *by, cd("setApprovalForAll(address,bool)", &[a(*o), b(*v)]))
            }
        }
    }
    fn check(&self, m: &M1155) -> Result<(), String> {
        m.check_views(&self.who, &self.ids)
    }
}
impl Sys {
    fn plain(&self, r: Step, what: &str, by: Address, call: Vec<u8>) -> Result<bool, String> {
        step(what, by, T, call, &expect(&r, vec![]))?;
        check_callback(T, ZERO, None).map_err(|e| format!("{what}: {e}"))?;
        Ok(r.is_ok())
    }
}

/// identifier lists with repetition, and value lists
fn batches(s: &Sys) -> Vec<(Vec<U256>, Vec<U256>)> {
    let i = &s.ids;
    let (x, y) = (i[0], i[1]);
    let v = &s.vals;
    let mut out = vec![
        (vec![], vec![]),
        (vec![x], vec![]),
        (vec![], vec![v[0]]),
        (vec![x, y], vec![v[0]]),
        (vec![x], vec![v[0], v[0]]),
    ];
    for &p in v {
        out.push((vec![x], vec![p]));
        for &q in v {
            out.push((vec![x, y], vec![p, q]));
            out.push((vec![y, y], vec![p, q]));
        }
    }
    out.push((vec![x, y, x], vec![n(1), n(1), n(1)]));
    out.push((vec![y, x, y], vec![n(1), n(0), n(2)]));
    out
}
fn gen_c15(s: &Sys, _m: &M1155) -> Vec<Op> {
    let mut v = vec![];
    let (aa, bb) = (s.who[0], s.who[1]);
    for &id in &s.ids {
        for &val in &s.vals {
            for &x in &s.who {
                v.push(Op::Mint(bb, x, id, val, 0));
                v.push(Op::RawBurn(x, id, val));
            }
            for (f, t) in [(aa, bb), (bb, aa), (aa, aa), (aa, ZERO), (ZERO, aa)] {
                v.push(Op::Transfer(f, f, t, id, val, 1));
            }
        }
    }
    for (ids, vals) in batches(s) {
        for x in [aa, bb, ZERO] {
            v.push(Op::MintBatch(bb, x, ids.clone(), vals.clone(), 0));
            v.push(Op::RawBurnBatch(x, ids.clone(), vals.clone()));
        }
        for (f, t) in [(aa, bb), (bb, aa), (aa, aa), (aa, ZERO), (ZERO, aa)] {
            v.push(Op::TransferBatch(f, f, t, ids.clone(), vals.clone(), 2));
        }
    }
    v
}
fn gen_c16(s: &Sys, _m: &M1155) -> Vec<Op> {
    let mut v = vec![];
    let acc: Vec<Address> = s.who.iter().copied().filter(|x| !x.is_zero()).collect();
    let id = s.ids[0];
    for &x in &acc {
        v.push(Op::Mint(acc[0], x, id, n(1), 0));
        for &y in &s.who {
            v.push(Op::SetAll(x, y, true));
            v.push(Op::SetAll(x, y, false));
            for &val in &s.vals {
                if !s.supply {
                    v.push(Op::Burn(x, y, id, val));
                }
                for &z in &s.who {
                    v.push(Op::Transfer(x, y, z, id, val, 0));
                    v.push(Op::TransferBatch(x, y, z, vec![id], vec![val], 1));
                }
            }
            if !s.supply {
                v.push(Op::BurnBatch(x, y, vec![id, id], vec![n(1), n(0)]));
                v.push(Op::BurnBatch(x, y, vec![id], vec![]));
                v.push(Op::BurnBatch(x, y, vec![], vec![]));
            }
            v.push(Op::TransferBatch(x, y, acc[0], vec![], vec![], 1));
            v.push(Op::TransferBatch(x, y, acc[1], vec![id, s.ids[1]], vec![n(1), n(0)], 1));
        }
    }
    v
}
fn gen_c10(s: &Sys, m: &M1155) -> Vec<Op> {
    let mut v = vec![];
    let (aa, bb) = (s.who[0], s.who[1]);
    let (x, y) = (s.ids[0], s.ids[1]);
    let lists = [
        (vec![], vec![]),
        (vec![x], vec![n(2)]),
        (vec![x, y], vec![n(1), n(2)]),
        (vec![y, y], vec![n(1), n(1)]),
        (vec![x, y, x], vec![n(1), n(0), n(0)]),
        (vec![x, y], vec![n(1)]),
    ];
    for &to in &s.who {
        for by in [aa, bb] {
            for d in 0..DATA.len() {
                v.push(Op::Mint(by, to, x, n(2), d));
                for (i, w) in &lists {
                    v.push(Op::MintBatch(by, to, i.clone(), w.clone(), d));
                }
            }
        }
        for &from in &s.who {
            if from.is_zero() || from == T || !(from == aa || m.bal.keys().any(|k| k.1 == from)) {
                continue;
            }
            for by in [from, bb] {
                for d in 0..DATA.len() {
                    v.push(Op::Transfer(by, from, to, y, n(1), d));
                    v.push(Op::Transfer(by, from, to, x, n(0), d));
                    for (i, w) in &lists {
                        v.push(Op::TransferBatch(by, from, to, i.clone(), w.clone(), d));
                    }
                }
            }
        }
    }
    v.push(Op::SetAll(aa, bb, true));
    v.push(Op::SetAll(recv(R::Probe), bb, true));
    v
}

fn sys(supply: bool, ids: Vec<U256>, who: Vec<Address>, vals: Vec<U256>, gen: fn(&Sys, &M1155) -> Vec<Op>) -> Sys {
    Sys { supply, ids, who, gen, vals }
}
/// values around every limb and byte boundary
pub fn bounds() -> Vec<U256> {
    let mut v = vec![];
    for k in (0..256).step_by(8) {
        let p = U256::from(1) << k;
        v.extend([p - n(1), p, p + n(1)]);
    }
    for k in [63u32, 127, 191, 255] {
        let p = U256::from(1) << k;
        v.extend([p - n(1), p]);
    }
    v.extend([U256::MAX - n(1), U256::MAX, n(2), n(3)]);
    v.sort();
    v.dedup();
    v
}
/// accounts at the ends of the address range and around a given one
pub fn odd_accounts() -> Vec<Address> {
    let mut v = vec![ZERO, Address::with_last_byte(1), Address::new([0xff; 20]), T, addr(1), recv(R::Accept)];
    let mut x = [0xff; 20];
    x[19] = 0xfe;
    v.push(Address::from(x));
    v
}
pub fn flip(x: Address, bit: usize) -> Address {
    let mut y = x.0 .0;
    y[bit / 8] ^= 1 << (bit % 8);
    Address::from(y)
}

/// Histories of long batches: identifiers in four patterns, a shortage at any
/// one position, lengths that differ by one, to an account and to a contract.
fn long_batches(c: &mut Check, supply: bool) {
    let top = c.q(34usize, 80);
    let (aa, bb) = (addr(1), addr(2));
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for len in (0..=top).chain([64, 127, 128, 129, 255, 256, 257]) {
        for pat in 0..4 {
            // the position that lacks one unit (len: none)
            let pos: Vec<usize> = if len <= top { (0..=len).collect() } else { vec![0, len / 2, len - 1, len] };
            for p in pos {
                items.push((len, pat, p));
            }
        }
    }
    let name = if supply { "long batches with supply" } else { "long batches" };
    c.enumerate(name, "batches of every length to the bound and around 64, 128 and 256 x 4 identifier patterns x a shortage at any one position: mint, transfer to an account and to a contract, burn, and lists whose lengths differ by one", &items, |(len, pat, short)| {
        let (len, pat, short) = (*len, *pat, *short);
        let ids: Vec<U256> = (0..len)
            .map(|i| match pat {
                0 => n(i as u64 * 3 + 1),
                1 => n(7),
                2 => n(i as u64 % 2),
                _ => if i + 1 == len { n(1) } else { n(i as u64 + 1) },
            })
            .collect();
        let vals: Vec<U256> = (0..len).map(|i| n(i as u64 + 1)).collect();
        let mut less = vals.clone();
        if short < len {
            less[short] -= n(1);
        }
        let mut seen = ids.clone();
        seen.extend([n(0), n(2), n(5), n(1000)]);
        seen.sort();
        seen.dedup();
        let s = sys(supply, seen, vec![aa, bb, recv(R::Accept)], vec![], gen_c15);
        let (more, fewer) = ([ids.clone(), vec![n(1)]].concat(), ids[..len.saturating_sub(1)].to_vec());
        let to = if short % 2 == 0 { bb } else { recv(R::Accept) };
        let mut ops = vec![
            Op::MintBatch(bb, aa, ids.clone(), less.clone(), 0),
            Op::TransferBatch(aa, aa, to, ids.clone(), vals.clone(), 1),
            Op::RawBurnBatch(aa, ids.clone(), vals.clone()),
            Op::TransferBatch(aa, aa, to, ids.clone(), less.clone(), 1),
            Op::TransferBatch(to, to, aa, ids.clone(), less.clone(), 2),
            Op::MintBatch(bb, to, more.clone(), vals.clone(), 0),
            Op::TransferBatch(aa, aa, to, more.clone(), vals.clone(), 0),
            Op::RawBurnBatch(aa, more, vals.clone()),
        ];
        if len > 0 {
            ops.extend([
                Op::MintBatch(bb, to, fewer.clone(), vals.clone(), 0),
                Op::TransferBatch(aa, aa, to, fewer.clone(), vals.clone(), 0),
                Op::RawBurnBatch(aa, fewer, vals.clone()),
                Op::Mint(bb, aa, ids[0], n(1), 0),
            ]);
        }
        ops.push(Op::RawBurnBatch(aa, ids.clone(), less.clone()));
        script(&s, &ops)
    });
}
/// Lists of different lengths are refused whatever the lengths.
fn mismatched(c: &mut Check, supply: bool) {
    let lens: Vec<usize> = (0..=c.q(12, 40)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1024, 1025]).collect();
    let mut items: Vec<(usize, usize)> = lens.iter().flat_map(|x| lens.iter().filter(move |y| x != *y).map(move |y| (*x, *y))).collect();
    items.extend([(65536, 0), (0, 65536), (65537, 1), (1, 65537), (2, 65538)]);
    let name = if supply { "mismatched lengths with supply" } else { "mismatched lengths" };
    c.enumerate(name, "all pairs of different lengths among 0..12 (thorough 40) and around powers of two to 1024, differences of 65536: batch mints, transfers, burns and balance queries refused, naming both lengths", &items, |(l, k)| {
        let (aa, bb) = (addr(1), addr(2));
        let s = sys(supply, vec![n(4), n(5)], vec![aa, bb], vec![], gen_c15);
        let (wd, mut m) = s.init();
        with(|vm| vm.world = wd);
        s.apply(&mut m, &Op::MintBatch(bb, aa, vec![n(4), n(5)], vec![n(9), n(9)], 0))?;
        let (ids, vs) = (vec![n(4); *l], vec![n(0); *k]);
        for op in [
            Op::MintBatch(bb, aa, ids.clone(), vs.clone(), 0),
            Op::TransferBatch(aa, aa, bb, ids.clone(), vs.clone(), 0),
            Op::RawBurnBatch(aa, ids.clone(), vs.clone()),
        ] {
            if s.apply(&mut m, &op)? {
                return Err("harness: mismatched lists accepted by the reference".into());
            }
        }
        must_fail_view("balanceOfBatch", aa, T, cd("balanceOfBatch(address[],uint256[])", &[addrs(&vec![aa; *k]), us(&ids)]), &[cd("ERC1155InvalidArrayLength(uint256,uint256)", &[u(U256::from(*l)), u(U256::from(*k))])])?;
        s.check(&m)?;
        Ok(true)
    });
}
/// Amount pairs and identifiers over the whole range.
fn wide(c: &mut Check, supply: bool) {
    let (aa, bb) = (addr(1), addr(2));
    let v = bounds();
    let items: Vec<(U256, U256)> = v.iter().flat_map(|x| v.iter().map(move |y| (*x, *y))).collect();
    let name = if supply { "wide amounts with supply" } else { "wide amounts" };
    c.enumerate(name, "all pairs of amounts at every limb and byte boundary: minted, moved, moved back in two, burned, minted again beside another identifier", &items, |(x, y)| {
        let (i, j) = (*y, !*y);
        let s = sys(supply, vec![i, j], vec![aa, bb], vec![], gen_c15);
        script(
            &s,
            &[
                Op::Mint(bb, aa, i, *x, 0),
                Op::Transfer(aa, aa, bb, i, *y, 0),
                Op::TransferBatch(bb, bb, aa, vec![i, i], vec![*y >> 1, *y - (*y >> 1)], 0),
                Op::Mint(bb, bb, i, *y, 0),
                Op::MintBatch(bb, aa, vec![j, i], vec![*y, *x], 0),
                Op::RawBurn(aa, i, *y),
                Op::RawBurnBatch(aa, vec![i, j], vec![*x, *y]),
                Op::Transfer(aa, aa, aa, j, *y, 0),
            ],
        )
    });
    let items: Vec<(U256, usize)> = [n(0), n(5), U256::MAX, n(1) << 128, U256::MAX >> 1].into_iter().flat_map(|x| (0..256).map(move |k| (x, k))).collect();
    let name = if supply { "neighbouring identifiers with supply" } else { "neighbouring identifiers" };
    c.enumerate(name, "identifiers that differ in one bit (every bit) never share a balance or a supply", &items, |(x, k)| {
        let y = *x ^ (n(1) << *k);
        let s = sys(supply, vec![*x, y], vec![aa, bb], vec![], gen_c15);
        script(
            &s,
            &[
                Op::Mint(bb, aa, *x, n(5), 0),
                Op::Transfer(aa, aa, bb, y, n(1), 0),
                Op::Mint(bb, bb, y, n(3), 0),
                Op::Transfer(aa, aa, bb, *x, n(2), 0),
                Op::RawBurn(bb, y, n(3)),
                Op::RawBurn(bb, y, n(1)),
            ],
        )
    });
}
fn odd_parties(c: &mut Check, supply: bool) {
    let v = odd_accounts();
    let mut items = vec![];
    for &x in &v {
        for &y in &v {
            for &z in &v {
                items.push((x, y, z));
            }
        }
    }
    let name = if supply { "unusual accounts with supply" } else { "unusual accounts" };
    c.enumerate(name, "zero, smallest and largest addresses, the token itself and a receiver contract as holder, operator and receiver", &items, |(x, y, z)| {
        let s = sys(supply, vec![n(4)], v.clone(), vec![], gen_c15);
        let (i, k) = (n(4), n(2));
        let mut ops = vec![
            Op::Mint(*y, *x, i, n(9), 0),
            Op::Transfer(*y, *x, *z, i, k, 0),
            Op::SetAll(*x, *y, true),
            Op::Transfer(*y, *x, *z, i, k, 0),
            Op::TransferBatch(*y, *x, *z, vec![i], vec![k], 1),
            Op::TransferBatch(*y, *x, *z, vec![], vec![], 1),
            Op::TransferBatch(*y, *x, *z, vec![i, i], vec![k, n(1)], 1),
            Op::RawBurn(*z, i, n(1)),
        ];
        if !supply {
            ops.push(Op::Burn(*y, *x, i, n(1)));
            ops.push(Op::BurnBatch(*y, *x, vec![i], vec![n(1)]));
        }
        ops.push(Op::SetAll(*x, *y, false));
        ops.push(Op::Transfer(*y, *x, *z, i, n(1), 0));
        if !supply {
            ops.push(Op::Burn(*y, *x, i, n(1)));
        }
        script(&s, &ops)
    });
    // approvals of one operator are no approvals of a neighbour
    let items: Vec<(usize, bool)> = (0..160).flat_map(|k| [(k, false), (k, true)]).collect();
    let name = if supply { "neighbouring operators with supply" } else { "neighbouring operators" };
    c.enumerate(name, "accounts that differ in one bit (every bit) share neither operator rights nor balances", &items, |(k, holder)| {
        let (h, o) = (addr(1), addr(2));
        let (h2, o2) = if *holder { (flip(h, *k), o) } else { (h, flip(o, *k)) };
        if h2 == recv(R::Accept) || h2 == o || o2 == h {
            return Ok(true);
        }
        let s = sys(supply, vec![n(4)], vec![h, o, h2, o2], vec![], gen_c15);
        script(
            &s,
            &[
                Op::Mint(o, h, n(4), n(3), 0),
                Op::Mint(o, h2, n(4), n(3), 0),
                Op::SetAll(h, o, true),
                Op::Transfer(o2, h2, o2, n(4), n(1), 0),
                Op::Transfer(o, h, o, n(4), n(1), 0),
                Op::SetAll(h2, o2, true),
                Op::SetAll(h, o, false),
                Op::Transfer(o, h, o, n(4), n(1), 0),
                Op::Transfer(o2, h2, o2, n(4), n(1), 0),
            ],
        )
    });
}
pub fn c10(c: &mut Check) {
    for supply in [false, true] {
        let mut who = vec![addr(1), addr(2), ZERO, T];
        for r in mockrecv::ALL {
            who.push(recv(r));
        }
        let s = sys(supply, vec![n(0), n(9)], who, vec![], gen_c10);
        c.run(
            if supply { "erc1155-receivers-supply" } else { "erc1155-receivers" },
            "2 identifiers, 2 plain accounts, zero, the token itself and 11 receiver contracts; single and batch mint and transfer (batches of 0..3, repeated ids, mismatched lengths); 3 payload lengths; all histories to the depth",
            &s,
            c.q(2, 3),
        );
        let tag = if supply { " on supply" } else { "" };
        let (aa, bb) = (addr(1), addr(2));
        let acc = recv(R::Accept);
        let mk = |ids: Vec<U256>, who: Vec<Address>| sys(supply, ids, who, vec![], gen_c10);
        let pool = &[aa, acc, recv(R::Probe), recv(R::RevertReason), recv(R::WrongValue)];
        let trio: Vec<(Address, Address, Address, usize)> = pool.iter().flat_map(|x| pool.iter().flat_map(move |y| pool.iter().flat_map(move |z| (0..3).map(move |k| (*x, *y, *z, k))))).collect();
        c.enumerate(&format!("erc1155 coinciding parties{tag}"), "caller, holder and receiver drawn from a plain account and four kinds of contract in every combination, the caller being nobody or an operator, and as the minter", &trio, |(by, from, to, k)| {
            let s = mk(vec![n(4), n(5)], vec![aa, bb, acc]);
            let (ids, vs) = (vec![n(4), n(5)], vec![n(1), n(2)]);
            let mut ops = vec![Op::Mint(*by, *to, n(4), n(3), 1), Op::MintBatch(*by, *to, ids.clone(), vs.clone(), 2), Op::MintBatch(*by, *to, vec![], vec![], 0)];
            ops.extend([Op::Mint(bb, *from, n(4), n(9), 0), Op::MintBatch(bb, *from, ids.clone(), vec![n(9), n(9)], 0)]);
            match k {
                0 => {}
                1 => ops.push(Op::SetAll(*from, *by, true)),
                _ => ops.extend([Op::SetAll(*by, *from, true), Op::SetAll(*from, *to, true)]),
            }
            ops.extend([
                Op::Transfer(*by, *from, *to, n(4), n(1), 1),
                Op::TransferBatch(*by, *from, *to, ids.clone(), vs.clone(), 2),
                Op::TransferBatch(*by, *from, *to, vec![], vec![], 1),
                Op::TransferBatch(*by, *from, *to, vec![n(5)], vec![n(0)], 1),
                Op::Transfer(*by, *from, *to, n(4), n(100), 1),
            ]);
            script(&s, &ops).map(|_| true)
        });
        let lens: Vec<usize> = (0..=c.q(130, 600)).chain([1023, 1024, 1025, 4096]).collect();
        c.enumerate(&format!("erc1155 payloads{tag}"), "payloads of every length to 130 (thorough 600), and 1024 and 4096 bytes, reach the receiver unchanged in single and batch operations", &lens, |l| {
            let d = DATA.len() + l;
            let s = mk(vec![n(4), n(5)], vec![aa, bb, acc]);
            let (ids, vs) = (vec![n(4), n(5)], vec![n(1), n(2)]);
            script(
                &s,
                &[
                    Op::Mint(bb, acc, n(4), n(3), d),
                    Op::MintBatch(bb, acc, ids.clone(), vs.clone(), d),
                    Op::Transfer(acc, acc, recv(R::Probe), n(4), n(1), d),
                    Op::TransferBatch(acc, acc, recv(R::Probe), ids.clone(), vs.clone(), d),
                    Op::TransferBatch(acc, acc, recv(R::Probe), vec![n(4)], vec![n(1)], d),
                    Op::Transfer(acc, acc, recv(R::RevertReason), n(4), n(1), d),
                ],
            )
            .map(|_| true)
        });
        let lens: Vec<usize> = (0..=c.q(40usize, 140)).chain([63, 64, 65, 128]).collect();
        c.enumerate(&format!("batch callbacks{tag}"), "batches of every length to 40 (thorough 140), 64, 65, 128 to accepting, probing and refusing receivers", &lens, |l| {
            let ids: Vec<U256> = (0..*l as u64).map(|i| n(i * i % 11)).collect();
            let vs: Vec<U256> = (0..*l as u64).map(|i| n(i % 4)).collect();
            let s = mk((0..11).map(n).collect(), vec![aa, bb, acc]);
            let mut ops = vec![];
            for r in [R::Accept, R::Probe, R::WrongValue, R::RevertReason, R::SiblingValue] {
                ops.push(Op::MintBatch(bb, recv(r), ids.clone(), vs.clone(), 2));
            }
            ops.push(Op::TransferBatch(acc, acc, recv(R::Probe), ids.clone(), vs.clone(), 1));
            ops.push(Op::TransferBatch(recv(R::Probe), recv(R::Probe), recv(R::Empty), ids.clone(), vs.clone(), 1));
            ops.push(Op::TransferBatch(recv(R::Probe), recv(R::Probe), aa, ids, vs, 0));
            script(&s, &ops).map(|_| true)
        });
        let mut ids = bounds();
        ids.extend((0..256).map(|k| n(1) << k));
        ids.sort();
        ids.dedup();
        c.enumerate(&format!("identifiers and amounts in callbacks{tag}"), "every power of two and boundary value as identifier and as amount", &ids, |x| {
            let s = mk(vec![*x, n(5)], vec![aa, bb, acc]);
            let mut ops = vec![Op::Mint(bb, acc, *x, *x, 1), Op::Transfer(acc, acc, recv(R::Probe), *x, *x, 1), Op::TransferBatch(recv(R::Probe), recv(R::Probe), acc, vec![*x], vec![*x], 1), Op::Transfer(acc, acc, recv(R::ZeroValue), *x, *x, 1)];
            if *x < U256::MAX - n(2) {
                ops.push(Op::MintBatch(bb, acc, vec![n(5), *x], vec![n(1), n(1)], 2));
            }
            script(&s, &ops).map(|_| true)
        });
        let kinds = [(mockrecv::S1155, false), (mockrecv::S1155B, true)];
        for (cb, batch) in kinds {
            let sel = selector(cb);
            let items: Vec<(mockrecv::Answer, bool)> = mockrecv::answers(sel, c.q(100, 300)).into_iter().chain([(false, 32, U256::from(u32::from_be_bytes(selector(if batch { mockrecv::S1155 } else { mockrecv::S1155B }))) << 224)]).flat_map(|x| [(x, false), (x, true)]).collect();
            c.enumerate(&format!("{} answers{tag}", if batch { "batch receiver" } else { "single receiver" }), "every single-bit change and every shifted position of the acceptance value, answers and reverts of every length: accepted exactly for the acceptance value; reasons passed on", &items, |(x, mint)| {
                let s = mk(vec![n(4), n(5)], vec![aa, bb]);
                let (wd, mut m) = s.init();
                with(|vm| {
                    vm.world = wd;
                    mockrecv::set_answer(&mut vm.world, x);
                });
                let r = mockrecv::RAW;
                let (ids, vs) = (vec![n(4), n(5)], vec![n(1), n(2)]);
                s.apply(&mut m, &Op::MintBatch(aa, aa, ids.clone(), vs.clone(), 0))?;
                let from = if *mint { ZERO } else { aa };
                let call = match (mint, batch) {
                    (true, false) => cd("mint(address,uint256,uint256,bytes)", &[a(r), w(4), w(1), bytes(b"x")]),
                    (true, true) => cd("mintBatch(address,uint256[],uint256[],bytes)", &[a(r), us(&ids), us(&vs), bytes(b"x")]),
                    (false, false) => cd("safeTransferFrom(address,address,uint256,uint256,bytes)", &[a(aa), a(r), w(4), w(1), bytes(b"x")]),
                    (false, true) => cd("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", &[a(aa), a(r), us(&ids), us(&vs), bytes(b"x")]),
                };
                let log = if batch {
                    ev(T, "TransferBatch(address,address,address,uint256[],uint256[])", &[a(aa), a(from), a(r)], &[us(&ids), us(&vs)])
                } else {
                    ev(T, "TransferSingle(address,address,address,uint256,uint256)", &[a(aa), a(from), a(r)], &[w(4), w(1)])
                };
                let before = with(|vm| vm.world.fingerprint());
                let what = format!("{cb}, mint {mint}, answer {x:?}");
                let ok = match mockrecv::judge(sel, x) {
                    None => {
                        step(&what, aa, T, call, &Expect::Ok(vec![], vec![log]))?;
                        true
                    }
                    Some(e) => {
                        step(&what, aa, T, call, &Expect::Err(vec![e.unwrap_or_else(|| cd("ERC1155InvalidReceiver(address)", &[a(r)]))]))?;
                        false
                    }
                };
                let d = if batch { cd(cb, &[a(aa), a(from), us(&ids), us(&vs), bytes(b"x")]) } else { cd(cb, &[a(aa), a(from), w(4), w(1), bytes(b"x")]) };
                check_callback(T, r, Some(d)).map_err(|e| format!("{what}: {e}"))?;
                if !ok && with(|vm| vm.world.fingerprint()) != before {
                    return Err(format!("{what}: refused tokens left a trace"));
                }
                Ok(ok)
            });
        }
    }
}
pub fn c15(c: &mut Check) {
    let who = vec![addr(1), addr(2), ZERO];
    let s = sys(false, vec![n(0), n(7)], who.clone(), vec![n(0), n(1), n(2)], gen_c15);
    c.run("erc1155-small", "2 ids, 2 accounts and zero, amounts {0,1,2}, batches of 0..3 with repetition and mismatched lengths; all histories to the depth", &s, c.q(4, 5));
    let s = sys(false, vec![n(1), U256::MAX], who.clone(), vec![n(1), U256::MAX - n(1), U256::MAX], gen_c15);
    c.run("erc1155-edge", "ids {1,max}, amounts {1,max-1,max}; all histories to the depth", &s, c.q(4, 7));
    let s = sys(true, vec![n(0), n(7)], who, vec![n(0), n(1), n(2)], gen_c15);
    c.run("erc1155-on-supply", "the same alphabet on the supply-tracking variant; all histories to the depth", &s, c.q(3, 4));
    long_batches(c, false);
    mismatched(c, false);
    wide(c, false);
}
pub fn c16(c: &mut Check) {
    let who = vec![addr(1), addr(2), addr(3), ZERO];
    for supply in [false, true] {
        let s = sys(supply, vec![n(3), n(4)], who.clone(), vec![n(0), n(1), n(2)], gen_c16);
        c.run(if supply { "operators-supply" } else { "operators" }, "3 accounts and zero, every operator pair, single and batch transfers and burns by every caller for every holder; all histories to the depth", &s, c.q(if supply { 5 } else { 6 }, 8));
        odd_parties(c, supply);
    }
}
pub fn c17(c: &mut Check) {
    let who = vec![addr(1), addr(2), ZERO];
    let s = sys(true, vec![n(0), n(7)], who.clone(), vec![n(0), n(1), n(2)], gen_c15);
    c.run("supply-small", "2 ids, 2 accounts and zero, amounts {0,1,2}, batches of 0..3 with repetition; all histories to the depth", &s, c.q(4, 5));
    let s = sys(true, vec![n(1), U256::MAX], who, vec![n(1), U256::MAX - n(1), U256::MAX], gen_c15);
    c.run("supply-edge", "ids {1,max}, amounts {1,max-1,max}: sums at and over the limit; all histories to the depth", &s, c.q(5, 9));
    long_batches(c, true);
    mismatched(c, true);
    wide(c, true);
}
