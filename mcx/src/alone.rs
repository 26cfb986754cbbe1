//! Each example with several components, against the components' models.
use mc::abi::*;
use mc::erc1155ref::*;
use mc::erc20ref::*;
use mc::erc721ref::*;
use mc::mockrecv::{self, recv, R};
use mc::report::Check;
use mc::*;
use std::collections::BTreeSet;
use std::sync::Arc;

const T: Address = Address::new([0x7e; 20]);
const ZERO: Address = Address::ZERO;
pub fn n(v: u64) -> U256 {
    U256::from(v)
}
/// Slot of `m[k]` for a mapping in `slot`.
pub fn at(k: B256, slot: B256) -> B256 {
    keccak(&[k.0, slot.0].concat())
}
pub fn put(w: &mut World, t: Address, k: B256, v: U256) {
    Arc::make_mut(&mut w.acct(t).storage).insert(k, B256::from(v));
}
pub fn word(x: Address) -> B256 {
    x.into_word()
}
pub fn slot(i: u64) -> B256 {
    B256::from(U256::from(i))
}
fn e_paused() -> Vec<u8> {
    cd("EnforcedPause()", &[])
}
/// Adds the pause guard to a model step: refused while paused, otherwise `f`.
fn guard<M: Clone>(m: &mut M, paused: bool, f: impl FnOnce(&mut M) -> Step) -> Step {
    if !paused {
        return f(m);
    }
    let mut t = m.clone();
    match f(&mut t) {
        Err(e) if e.is_empty() => Err(vec![]),
        Err(mut e) => {
            e.push(e_paused());
            Err(e)
        }
        Ok(_) => Err(vec![e_paused()]),
    }
}
fn switch(p: &mut bool, on: bool, by: Address) -> Step {
    if *p == on {
        return Err(vec![if on { e_paused() } else { cd("ExpectedPause()", &[]) }]);
    }
    *p = on;
    Ok(vec![ev(T, if on { "Paused(address)" } else { "Unpaused(address)" }, &[], &[a(by)])])
}
fn flip(on: bool) -> Vec<u8> {
    cd(if on { "pause()" } else { "unpause()" }, &[])
}

// ------------------------------------------------------------ erc20 example
#[derive(Clone, Debug)]
enum Op20 {
    Mint(Address, U256),
    Burn(Address, U256),
    BurnFrom(Address, Address, U256),
    Transfer(Address, Address, U256),
    TransferFrom(Address, Address, Address, U256),
    Approve(Address, Address, U256),
    Pause(Address, bool),
}
struct Sys20 {
    cap: U256,
    who: Vec<Address>,
    vals: Vec<U256>,
}
#[derive(Clone, Hash)]
struct P<M> {
    m: M,
    paused: bool,
}
impl System for Sys20 {
    type Model = P<M20>;
    type Op = Op20;
    fn init(&self) -> (World, P<M20>) {
        let mut wd = World::default();
        wd.acct(T).code = Code::Native(crate::x_20::run);
        wd.set_string(T, 3, "Name");
        wd.set_string(T, 4, "SYM");
        wd.set_slot(T, 5, self.cap);
        (wd, P { m: M20::new(T), paused: false })
    }
    fn ops(&self, _: &P<M20>) -> Vec<Op20> {
        let mut v = vec![];
        for &x in &self.who {
            for &k in &self.vals {
                v.push(Op20::Mint(x, k));
                v.push(Op20::Burn(x, k));
                for &y in self.who.iter().chain([&ZERO]) {
                    v.push(Op20::Transfer(x, y, k));
                    v.push(Op20::Approve(x, y, k));
                    v.push(Op20::BurnFrom(x, y, k));
                    v.push(Op20::TransferFrom(x, y, x, k));
                    v.push(Op20::TransferFrom(x, self.who[0], y, k));
                }
            }
        }
        v.push(Op20::Mint(ZERO, n(1)));
        v.push(Op20::Pause(self.who[1], true));
        v.push(Op20::Pause(self.who[1], false));
        v
    }
    fn apply(&self, s: &mut P<M20>, op: &Op20) -> Result<bool, String> {
        let P { m, paused } = s;
        let p = *paused;
        let (r, by, call, ret) = match *op {
            Op20::Mint(x, k) => {
                let r = guard(m, p, |m| match m.supply.checked_add(k) {
                    None => Err(vec![]),
                    Some(t) if t > self.cap => {
                        let mut e = vec![cd("ERC20ExceededCap(uint256,uint256)", &[u(t), u(self.cap)])];
                        if x.is_zero() {
                            e.push(e_receiver(x));
                        }
                        Err(e)
                    }
                    _ => m.mint(x, k),
                });
                (r, addr(9), cd("mint(address,uint256)", &[a(x), u(k)]), vec![])
            }
            Op20::Burn(x, k) => (guard(m, p, |m| m.burn(x, k)), x, cd("burn(uint256)", &[u(k)]), vec![]),
            Op20::BurnFrom(by, x, k) => (guard(m, p, |m| m.burn_from(by, x, k)), by, cd("burnFrom(address,uint256)", &[a(x), u(k)]), vec![]),
            Op20::Transfer(x, y, k) => (guard(m, p, |m| m.transfer(x, y, k)), x, cd("transfer(address,uint256)", &[a(y), u(k)]), ret_true()),
            Op20::TransferFrom(by, x, y, k) => (guard(m, p, |m| m.transfer_from(by, x, y, k)), by, cd("transferFrom(address,address,uint256)", &[a(x), a(y), u(k)]), ret_true()),
            Op20::Approve(x, y, k) => (m.approve(x, y, k), x, cd("approve(address,uint256)", &[a(y), u(k)]), ret_true()),
            Op20::Pause(by, on) => (switch(paused, on, by), by, flip(on), vec![]),
        };
        step(&format!("{op:?}"), by, T, call, &expect(&r, ret))?;
        Ok(r.is_ok())
    }
    fn check(&self, s: &P<M20>) -> Result<(), String> {
        let q = self.who[0];
        s.m.check_views(&self.who)?;
        must_view("paused", q, T, cd("paused()", &[]), &enc(&[b(s.paused)]))?;
        must_view("cap", q, T, cd("cap()", &[]), &enc(&[u(self.cap)]))?;
        must_view("decimals", q, T, cd("decimals()", &[]), &enc(&[w(10)]))?;
        must_view("name", q, T, cd("name()", &[]), &enc(&[mc::abi::s("Name")]))?;
        must_view("symbol", q, T, cd("symbol()", &[]), &enc(&[mc::abi::s("SYM")]))?;
        if s.m.supply > self.cap {
            return Err("supply beyond the cap".into());
        }
        Ok(())
    }
}

// ----------------------------------------------------------- erc721 example
#[derive(Clone, Debug)]
enum Op721 {
    Mint(Address, U256),
    SafeMint(Address, U256),
    Burn(Address, U256),
    Transfer(Address, Address, Address, U256),
    Safe(Address, Address, Address, U256),
    SafeData(Address, Address, Address, U256),
    Approve(Address, Address, U256),
    All(Address, Address, bool),
    Pause(Address, bool),
}
struct Sys721 {
    ids: Vec<U256>,
    who: Vec<Address>,
    to: Vec<Address>,
    /// transfers to the owner itself are part of the alphabet
    same: bool,
}
/// What the enumeration shows after the shortest history with a transfer to
/// the owner itself, for each of the three transfer functions: `true` where it
/// is right, an error where it is wrong in another way than the known one.
pub fn self_transfers() -> Result<bool, String> {
    let p = addr(1);
    let mut right = 0;
    for f in ["transferFrom(address,address,uint256)", "safeTransferFrom(address,address,uint256)", "safeTransferFrom(address,address,uint256,bytes)"] {
        let mut wd = World::default();
        wd.acct(T).code = Code::Native(crate::x_721::run);
        with(|vm| vm.world = wd);
        let mut args = vec![a(p), a(p), u(n(1))];
        if f.contains("bytes") {
            args.push(bytes(b"hi"));
        }
        for call in [cd("mint(address,uint256)", &[a(p), u(n(1))]), cd("mint(address,uint256)", &[a(p), u(n(2))]), cd(f, &args)] {
            if !tx(p, T, U256::ZERO, call).ok {
                return Err(format!("{f} to the owner itself refused"));
            }
        }
        let at = |i: u64| view(p, T, cd("tokenOfOwnerByIndex(address,uint256)", &[a(p), w(i)]));
        let (x, y) = (at(0), at(1));
        let one = enc(&[w(1)]);
        let two = enc(&[w(2)]);
        if x.ok && y.ok && (x.data == one && y.data == two || x.data == two && y.data == one) {
            right += 1;
        } else if x.ok || x.data != cd("ERC721OutOfBoundsIndex(address,uint256)", &[a(p), w(0)]) || !y.ok || y.data != one {
            return Err(format!("mint 1, mint 2, {f} of 1 to the owner itself: tokenOfOwnerByIndex gives {:02x?} and {:02x?}", x.data, y.data));
        }
    }
    match right {
        3 => Ok(true),
        0 => Ok(false),
        _ => Err("the three transfer functions disagree on a transfer to the owner itself".into()),
    }
}
impl System for Sys721 {
    type Model = P<M721>;
    type Op = Op721;
    fn init(&self) -> (World, P<M721>) {
        let mut wd = World::default();
        wd.acct(T).code = Code::Native(crate::x_721::run);
        mockrecv::install(&mut wd);
        (wd, P { m: M721::new(T), paused: false })
    }
    fn ops(&self, s: &P<M721>) -> Vec<Op721> {
        let mut v = vec![];
        for &id in &self.ids {
            let o = s.m.o(id).unwrap_or(self.who[0]);
            for &x in &self.who {
                v.push(Op721::Burn(x, id));
                v.push(Op721::Approve(x, self.who[1], id));
                if self.same || s.m.o(id) != Some(self.who[0]) {
                    v.push(Op721::Transfer(x, o, self.who[0], id));
                }
                v.push(Op721::Transfer(x, self.who[1], self.who[0], id));
            }
            for &t in self.to.iter().chain(&self.who).chain([&ZERO]) {
                v.push(Op721::Mint(t, id));
                v.push(Op721::SafeMint(t, id));
                if t == o && !self.same && s.m.o(id).is_some() {
                    continue;
                }
                v.push(Op721::Transfer(o, o, t, id));
                v.push(Op721::Safe(o, o, t, id));
                v.push(Op721::SafeData(o, o, t, id));
            }
        }
        v.push(Op721::All(self.who[0], self.who[1], true));
        v.push(Op721::All(self.who[0], self.who[1], false));
        v.push(Op721::Pause(self.who[0], true));
        v.push(Op721::Pause(self.who[0], false));
        v
    }
    fn apply(&self, s: &mut P<M721>, op: &Op721) -> Result<bool, String> {
        let P { m, paused } = s;
        let p = *paused;
        let nine = addr(9);
        let safe = |m: &mut M721, to: Address, f: &mut dyn FnMut(&mut M721) -> Step| {
            let before = m.clone();
            let r = f(m);
            m.accept(r, &before, to, true)
        };
        let (r, by, call) = match *op {
            Op721::Mint(x, id) => (guard(m, p, |m| m.mint(x, id)), nine, cd("mint(address,uint256)", &[a(x), u(id)])),
            Op721::SafeMint(x, id) => (guard(m, p, |m| safe(m, x, &mut |m| m.mint(x, id))), nine, cd("safeMint(address,uint256,bytes)", &[a(x), u(id), bytes(b"hi")])),
            Op721::Burn(by, id) => (guard(m, p, |m| m.burn_by(by, id)), by, cd("burn(uint256)", &[u(id)])),
            Op721::Transfer(by, f, t, id) => (guard(m, p, |m| m.transfer_from(by, f, t, id)), by, cd("transferFrom(address,address,uint256)", &[a(f), a(t), u(id)])),
            Op721::Safe(by, f, t, id) => (guard(m, p, |m| safe(m, t, &mut |m| m.transfer_from(by, f, t, id))), by, cd("safeTransferFrom(address,address,uint256)", &[a(f), a(t), u(id)])),
            Op721::SafeData(by, f, t, id) => (guard(m, p, |m| safe(m, t, &mut |m| m.transfer_from(by, f, t, id))), by, cd("safeTransferFrom(address,address,uint256,bytes)", &[a(f), a(t), u(id), bytes(b"hi")])),
            Op721::Approve(by, x, id) => (m.approve(by, x, id), by, cd("approve(address,uint256)", &[a(x), u(id)])),
            Op721::All(by, x, v) => (m.set_all(by, x, v), by, cd("setApprovalForAll(address,bool)", &[a(x), b(v)])),
            Op721::Pause(by, on) => (switch(paused, on, by), by, flip(on)),
        };
        step(&format!("{op:?}"), by, T, call, &expect(&r, vec![]))?;
        Ok(r.is_ok())
    }
    fn check(&self, s: &P<M721>) -> Result<(), String> {
        let all: Vec<Address> = self.who.iter().chain(&self.to).copied().collect();
        s.m.check_views(&all, &self.ids)?;
        check_enum(&s.m, &all, self.who[0])?;
        must_view("paused", self.who[0], T, cd("paused()", &[]), &enc(&[b(s.paused)]))
    }
}

// ---------------------------------------------------------- erc1155 example
#[derive(Clone, Debug)]
enum Op1155 {
    Mint(Address, Vec<U256>, Vec<U256>),
    Burn(Address, Address, Vec<U256>, Vec<U256>),
    Transfer(Address, Address, Address, Vec<U256>, Vec<U256>),
    All(Address, Address, bool),
    Pause(Address, bool),
}
struct Sys1155 {
    supply: bool,
    ids: Vec<U256>,
    who: Vec<Address>,
    to: Vec<Address>,
}
impl System for Sys1155 {
    type Model = P<M1155>;
    type Op = Op1155;
    fn init(&self) -> (World, P<M1155>) {
        let mut wd = World::default();
        wd.acct(T).code = Code::Native(if self.supply { crate::x_1155_supply::run } else { crate::x_1155::run });
        mockrecv::install(&mut wd);
        (wd, P { m: M1155::new(T, self.supply), paused: false })
    }
    fn ops(&self, _: &P<M1155>) -> Vec<Op1155> {
        let (i, j) = (self.ids[0], self.ids[1]);
        let lists = [
            (vec![i], vec![n(2)]),
            (vec![i], vec![U256::MAX]),
            (vec![i, i], vec![n(1), n(1)]),
            (vec![j, i], vec![n(1), n(0)]),
            (vec![i, j], vec![n(1)]),
        ];
        let mut v = vec![];
        for (ids, vs) in &lists {
            for &t in self.who.iter().chain(&self.to).chain([&ZERO]) {
                v.push(Op1155::Mint(t, ids.clone(), vs.clone()));
                for &x in &self.who {
                    v.push(Op1155::Transfer(self.who[1], x, t, ids.clone(), vs.clone()));
                }
            }
            for &x in &self.who {
                v.push(Op1155::Burn(self.who[1], x, ids.clone(), vs.clone()));
            }
        }
        v.push(Op1155::All(self.who[0], self.who[1], true));
        v.push(Op1155::All(self.who[0], self.who[1], false));
        if !self.supply {
            v.push(Op1155::Pause(self.who[0], true));
            v.push(Op1155::Pause(self.who[0], false));
        }
        v
    }
    fn apply(&self, s: &mut P<M1155>, op: &Op1155) -> Result<bool, String> {
        let P { m, paused } = s;
        let p = *paused;
        let nine = addr(9);
        let d = || bytes(b"hi");
        let (r, by, call) = match op {
            Op1155::Mint(t, i, v) => {
                let r = guard(m, p, |m| {
                    let before = m.clone();
                    let r = m.mint(nine, *t, i, v);
                    m.accept(r, &before, *t, i.len() == 1)
                });
                let call = if i.len() == 1 && v.len() == 1 { cd("mint(address,uint256,uint256,bytes)", &[a(*t), u(i[0]), u(v[0]), d()]) } else { cd("mintBatch(address,uint256[],uint256[],bytes)", &[a(*t), us(i), us(v), d()]) };
                (r, nine, call)
            }
            Op1155::Burn(by, x, i, v) => {
                let r = guard(m, p, |m| m.burn(*by, *x, i, v, !self.supply));
                let call = if i.len() == 1 && v.len() == 1 { cd("burn(address,uint256,uint256)", &[a(*x), u(i[0]), u(v[0])]) } else { cd("burnBatch(address,uint256[],uint256[])", &[a(*x), us(i), us(v)]) };
                (r, *by, call)
            }
            Op1155::Transfer(by, x, t, i, v) => {
                let r = guard(m, p, |m| {
                    let before = m.clone();
                    let r = m.transfer(*by, *x, *t, i, v);
                    m.accept(r, &before, *t, i.len() == 1)
                });
                let call = if i.len() == 1 && v.len() == 1 {
                    cd("safeTransferFrom(address,address,uint256,uint256,bytes)", &[a(*x), a(*t), u(i[0]), u(v[0]), d()])
                } else {
                    cd("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", &[a(*x), a(*t), us(i), us(v), d()])
                };
                (r, *by, call)
            }
            Op1155::All(by, x, v) => (m.set_all(*by, *x, *v), *by, cd("setApprovalForAll(address,bool)", &[a(*x), b(*v)])),
            Op1155::Pause(by, on) => (switch(paused, *on, *by), *by, flip(*on)),
        };
        step(&format!("{op:?}"), by, T, call, &expect(&r, vec![]))?;
        Ok(r.is_ok())
    }
    fn check(&self, s: &P<M1155>) -> Result<(), String> {
        let all: Vec<Address> = self.who.iter().chain(&self.to).copied().collect();
        s.m.check_views(&all, &self.ids)?;
        if !self.supply {
            must_view("paused", self.who[0], T, cd("paused()", &[]), &enc(&[b(s.paused)]))?;
        }
        Ok(())
    }
}

// ------------------------------- access control, ownable, two-step examples
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Roles,
    Owner,
    TwoStep,
}
#[derive(Clone, Debug)]
enum OpA {
    Transfer(Address, Address, U256),
    TransferFrom(Address, Address, Address, U256),
    Approve(Address, Address, U256),
    MakeAdmin(Address, Address),
    Grant(Address, B256, Address),
    Revoke(Address, B256, Address),
    Renounce(Address, B256, Address),
    SetAdmin(B256, B256),
    Hand(Address, Address),
    Accept(Address),
    Drop(Address),
}
#[derive(Clone, Hash)]
struct MA {
    m: M20,
    has: BTreeSet<(B256, Address)>,
    admin: [B256; 2],
    owner: Address,
    pending: Address,
}
struct SysA {
    kind: Kind,
    who: Vec<Address>,
    vals: Vec<U256>,
}
fn role() -> B256 {
    keccak(b"TRANSFER_ROLE")
}
fn e_role(x: Address, r: B256) -> Vec<u8> {
    cd("AccessControlUnauthorizedAccount(address,bytes32)", &[a(x), b32(r)])
}
fn e_own(x: Address) -> Vec<u8> {
    cd("OwnableUnauthorizedAccount(address)", &[a(x)])
}
fn ev_role(on: bool, r: B256, x: Address, by: Address) -> Log {
    ev(T, if on { "RoleGranted(bytes32,address,address)" } else { "RoleRevoked(bytes32,address,address)" }, &[b32(r), a(x), a(by)], &[])
}
fn moved(from: Address, to: Address) -> Log {
    ev(T, "OwnershipTransferred(address,address)", &[a(from), a(to)], &[])
}
impl SysA {
    fn also(ok: bool, e: Vec<u8>, m: &mut M20, f: impl FnOnce(&mut M20) -> Step) -> Step {
        if ok {
            return f(m);
        }
        let mut t = m.clone();
        let mut l = f(&mut t).err().unwrap_or_default();
        l.push(e);
        Err(l)
    }
}
impl System for SysA {
    type Model = MA;
    type Op = OpA;
    fn init(&self) -> (World, MA) {
        let mut wd = World::default();
        wd.acct(T).code = Code::Native(match self.kind {
            Kind::Roles => crate::x_access::run,
            Kind::Owner => crate::x_ownable::run,
            Kind::TwoStep => crate::x_two_step::run,
        });
        // two tokens each: the constructors mint none
        let mut m = M20::new(T);
        for x in &self.who {
            put(&mut wd, T, at(word(*x), slot(0)), n(2));
            let _ = m.mint(*x, n(2));
        }
        wd.set_slot(T, 2, m.supply);
        let mut has = BTreeSet::new();
        if self.kind == Kind::Roles {
            let base = at(B256::ZERO, slot(3));
            put(&mut wd, T, at(word(self.who[0]), base), n(1));
            has.insert((B256::ZERO, self.who[0]));
        } else {
            wd.set_slot(T, 3, self.who[0].into_word().into());
        }
        (wd, MA { m, has, admin: [B256::ZERO; 2], owner: self.who[0], pending: ZERO })
    }
    fn ops(&self, _: &MA) -> Vec<OpA> {
        let mut v = vec![];
        for &x in &self.who {
            for &k in &self.vals {
                for &y in &self.who {
                    v.push(OpA::Transfer(x, y, k));
                    v.push(OpA::Approve(x, y, k));
                    v.push(OpA::TransferFrom(x, y, self.who[0], k));
                }
            }
            for &y in &self.who {
                if self.kind == Kind::Roles {
                    v.push(OpA::MakeAdmin(x, y));
                    for r in [B256::ZERO, role()] {
                        v.push(OpA::Grant(x, r, y));
                        v.push(OpA::Revoke(x, r, y));
                    }
                    v.push(OpA::Renounce(x, role(), y));
                } else {
                    v.push(OpA::Hand(x, y));
                }
            }
            if self.kind != Kind::Roles {
                v.push(OpA::Hand(x, ZERO));
                v.push(OpA::Drop(x));
            }
            if self.kind == Kind::TwoStep {
                v.push(OpA::Accept(x));
            }
        }
        if self.kind == Kind::Roles {
            v.push(OpA::SetAdmin(role(), role()));
            v.push(OpA::SetAdmin(role(), B256::ZERO));
        }
        v
    }
    fn apply(&self, s: &mut MA, op: &OpA) -> Result<bool, String> {
        let nine = addr(9);
        let ri = |r: B256| (r == role()) as usize;
        let holds = |s: &MA, r: B256, x: Address| s.has.contains(&(r, x));
        let (r, by, call, ret): (Step, Address, Vec<u8>, Vec<u8>) = match *op {
            OpA::Transfer(x, y, k) => {
                let ok = self.kind == Kind::Roles || s.owner == x;
                let r = Self::also(ok, e_own(x), &mut s.m, |m| m.transfer(x, y, k));
                // the ownable examples' transfer has no result
                let ret = if self.kind == Kind::Roles { ret_true() } else { vec![] };
                (r, x, cd("transfer(address,uint256)", &[a(y), u(k)]), ret)
            }
            OpA::TransferFrom(by, x, y, k) => {
                let ok = self.kind != Kind::Roles || holds(s, role(), by);
                (Self::also(ok, e_role(by, role()), &mut s.m, |m| m.transfer_from(by, x, y, k)), by, cd("transferFrom(address,address,uint256)", &[a(x), a(y), u(k)]), ret_true())
            }
            OpA::Approve(x, y, k) => (s.m.approve(x, y, k), x, cd("approve(address,uint256)", &[a(y), u(k)]), ret_true()),
            OpA::MakeAdmin(by, x) => {
                let mut e = vec![];
                if !holds(s, B256::ZERO, by) {
                    e.push(e_role(by, B256::ZERO));
                }
                if !holds(s, s.admin[1], by) {
                    e.push(e_role(by, s.admin[1]));
                }
                let r = if e.is_empty() { Ok(if s.has.insert((role(), x)) { vec![ev_role(true, role(), x, by)] } else { vec![] }) } else { Err(e) };
                (r, by, cd("makeAdmin(address)", &[a(x)]), vec![])
            }
            OpA::Grant(by, r, x) => {
                let ad = s.admin[ri(r)];
                let st = if holds(s, ad, by) { Ok(if s.has.insert((r, x)) { vec![ev_role(true, r, x, by)] } else { vec![] }) } else { Err(vec![e_role(by, ad)]) };
                (st, by, cd("grantRole(bytes32,address)", &[b32(r), a(x)]), vec![])
            }
            OpA::Revoke(by, r, x) => {
                let ad = s.admin[ri(r)];
                let st = if holds(s, ad, by) { Ok(if s.has.remove(&(r, x)) { vec![ev_role(false, r, x, by)] } else { vec![] }) } else { Err(vec![e_role(by, ad)]) };
                (st, by, cd("revokeRole(bytes32,address)", &[b32(r), a(x)]), vec![])
            }
            OpA::Renounce(by, r, x) => {
                let st = if by == x { Ok(if s.has.remove(&(r, x)) { vec![ev_role(false, r, x, by)] } else { vec![] }) } else { Err(vec![cd("AccessControlBadConfirmation()", &[])]) };
                (st, by, cd("renounceRole(bytes32,address)", &[b32(r), a(x)]), vec![])
            }
            OpA::SetAdmin(r, q) => {
                let old = std::mem::replace(&mut s.admin[ri(r)], q);
                (Ok(vec![ev(T, "RoleAdminChanged(bytes32,bytes32,bytes32)", &[b32(r), b32(old), b32(q)], &[])]), nine, cd("setRoleAdmin(bytes32,bytes32)", &[b32(r), b32(q)]), vec![])
            }
            OpA::Hand(by, x) => {
                let mut e = vec![];
                if by != s.owner {
                    e.push(e_own(by));
                }
                if self.kind == Kind::Owner && x.is_zero() {
                    e.push(cd("OwnableInvalidOwner(address)", &[a(ZERO)]));
                }
                let r = if !e.is_empty() {
                    Err(e)
                } else if self.kind == Kind::Owner {
                    let old = std::mem::replace(&mut s.owner, x);
                    Ok(vec![moved(old, x)])
                } else {
                    s.pending = x;
                    Ok(vec![ev(T, "OwnershipTransferStarted(address,address)", &[a(s.owner), a(x)], &[])])
                };
                (r, by, cd("transferOwnership(address)", &[a(x)]), vec![])
            }
            OpA::Accept(by) => {
                let r = if by == s.pending {
                    s.pending = ZERO;
                    let old = std::mem::replace(&mut s.owner, by);
                    Ok(vec![moved(old, by)])
                } else {
                    Err(vec![e_own(by)])
                };
                (r, by, cd("acceptOwnership()", &[]), vec![])
            }
            OpA::Drop(by) => {
                let r = if by == s.owner {
                    s.pending = ZERO;
                    let old = std::mem::replace(&mut s.owner, ZERO);
                    Ok(vec![moved(old, ZERO)])
                } else {
                    Err(vec![e_own(by)])
                };
                (r, by, cd("renounceOwnership()", &[]), vec![])
            }
        };
        step(&format!("{op:?}"), by, T, call, &expect(&r, ret))?;
        Ok(r.is_ok())
    }
    fn check(&self, s: &MA) -> Result<(), String> {
        let q = self.who[0];
        s.m.check_views(&self.who)?;
        if self.kind == Kind::Roles {
            for (i, r) in [B256::ZERO, role()].into_iter().enumerate() {
                must_view("getRoleAdmin", q, T, cd("getRoleAdmin(bytes32)", &[b32(r)]), &enc(&[b32(s.admin[i])]))?;
                for x in &self.who {
                    must_view("hasRole", q, T, cd("hasRole(bytes32,address)", &[b32(r), a(*x)]), &enc(&[b(s.has.contains(&(r, *x)))]))?;
                }
            }
        } else {
            must_view("owner", q, T, cd("owner()", &[]), &enc(&[a(s.owner)]))?;
        }
        if self.kind == Kind::TwoStep {
            must_view("pendingOwner", q, T, cd("pendingOwner()", &[]), &enc(&[a(s.pending)]))?;
        }
        Ok(())
    }
}

pub fn run(c: &mut Check, same: bool) {
    let (aa, bb) = (addr(1), addr(2));
    for (cap, vals) in [(n(3), vec![n(0), n(1), n(3), U256::MAX]), (U256::MAX, vec![n(1), U256::MAX - n(1), U256::MAX])] {
        let s = Sys20 { cap, who: vec![aa, bb], vals };
        c.run(&format!("erc20 example, cap {}", if cap == n(3) { "3" } else { "maximal" }), "two accounts, all amounts, every operation, pausing at every point", &s, c.q(5, 8));
    }
    let s = Sys721 { ids: vec![n(1), n(2)], who: vec![aa, bb], to: vec![recv(R::Accept), recv(R::RevertReason), recv(R::WrongValue)], same };
    c.run("erc721 example", "two tokens, two accounts, accepting and refusing receivers, pausing at every point; both enumerations after every step", &s, c.q(5, 8));
    let s = Sys721 { ids: vec![n(1), n(2), U256::MAX], who: vec![aa, bb], to: vec![], same };
    c.run("erc721 example, three tokens", "three tokens, two accounts; both enumerations after every step", &s, c.q(6, 8));
    for supply in [false, true] {
        let s = Sys1155 { supply, ids: vec![n(1), U256::MAX], who: vec![aa, bb], to: vec![recv(R::Accept), recv(R::RevertReason), recv(R::SiblingValue)] };
        c.run(if supply { "erc1155-supply example" } else { "erc1155 example" }, "two identifiers, two accounts, receivers, single and batch forms, repeated identifiers, mismatched lengths, pausing at every point", &s, c.q(4, 6));
    }
    for kind in [Kind::Roles, Kind::Owner, Kind::TwoStep] {
        let s = SysA { kind, who: vec![aa, bb], vals: vec![n(1), n(3)] };
        c.run(&format!("{kind:?} example"), "two accounts with tokens; guarded transfers, allowances, role or ownership changes", &s, c.q(5, 8));
    }
}
