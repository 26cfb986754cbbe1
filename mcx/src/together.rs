//! The examples deployed together: the erc20 example is the asset of the
//! wrapper, the vault and the vesting wallet and is moved through the
//! safe-erc20 example; the erc721 example is the collection of the wrapper.
use crate::alone::n;
use mc::abi::*;
use mc::erc20ref::*;
use mc::erc721ref::*;
use mc::report::Check;
use mc::*;

const X: Address = Address::new([0x20; 20]);
const W: Address = Address::new([0x21; 20]);
const V: Address = Address::new([0x46; 20]);
const S: Address = Address::new([0x5a; 20]);
const Y: Address = Address::new([0x99; 20]);
const C: Address = Address::new([0x72; 20]);
const D: Address = Address::new([0x73; 20]);
const T0: u64 = 100;
const DUR: u64 = 8;

#[derive(Clone, Hash)]
struct M {
    x: M20,
    w: M20,
    v: M20,
    paused: bool,
    now: u64,
    released: U256,
    boss: Address,
}
#[derive(Clone, Debug)]
enum Op {
    Mint(Address, U256),
    Send(Address, Address, U256),
    Approve(Address, Address, U256),
    Pause(bool),
    Wrap(Address, Address, U256),
    Unwrap(Address, Address, U256),
    Deposit(Address, Address, U256),
    MintShares(Address, Address, U256),
    Withdraw(Address, Address, Address, U256),
    Redeem(Address, Address, Address, U256),
    Release(Address),
    Safe(Address, U256),
    SafeFrom(Address, Address, U256),
    Clock(u64),
    NewBoss(Address, Address),
}
struct Sys {
    who: Vec<Address>,
    vals: Vec<U256>,
    part: u8,
}
impl M {
    fn pay(&mut self, by: Address, from: Address, to: Address, k: U256) -> Step {
        if self.paused {
            return Err(vec![]);
        }
        let r = if by == from { self.x.transfer(from, to, k) } else { self.x.transfer_from(by, from, to, k) };
        r.map_err(|_| vec![])
    }
    /// all or nothing; the payload of a failure belongs to other checks
    fn all(&mut self, f: impl FnOnce(&mut M) -> Step) -> Step {
        let save = self.clone();
        let r = f(self).map_err(|_| vec![]);
        if r.is_err() {
            *self = save;
        }
        r
    }
    fn assets(&self) -> U256 {
        self.x.b(V)
    }
    fn conv(k: U256, num: U256, den: U256, up: bool) -> Option<U256> {
        let p = k.checked_mul(num)?;
        Some(p / den + U256::from((up && !(p % den).is_zero()) as u64))
    }
    fn shares(&self, k: U256, up: bool) -> Option<U256> {
        Self::conv(k, self.v.supply + n(1), self.assets() + n(1), up)
    }
    fn worth(&self, k: U256, up: bool) -> Option<U256> {
        Self::conv(k, self.assets() + n(1), self.v.supply + n(1), up)
    }
    fn enter(&mut self, by: Address, to: Address, assets: U256, shares: U256) -> Step {
        let mut l = self.pay(V, by, V, assets)?;
        l.extend(self.v.mint(to, shares)?);
        l.push(ev(V, "Deposit(address,address,uint256,uint256)", &[a(by), a(to)], &[u(assets), u(shares)]));
        Ok(l)
    }
    fn leave(&mut self, by: Address, to: Address, owner: Address, assets: U256, shares: U256) -> Step {
        if by != owner {
            self.v.spend(owner, by, shares)?;
        }
        let mut l = self.v.burn(owner, shares)?;
        l.extend(self.pay(V, V, to, assets)?);
        l.push(ev(V, "Withdraw(address,address,address,uint256,uint256)", &[a(by), a(to), a(owner)], &[u(assets), u(shares)]));
        Ok(l)
    }
    fn vested(&self) -> U256 {
        let total = self.x.b(Y) + self.released;
        if self.now < T0 {
            U256::ZERO
        } else if self.now >= T0 + DUR {
            total
        } else {
            total * n(self.now - T0) / n(DUR)
        }
    }
}
impl System for Sys {
    type Model = M;
    type Op = Op;
    fn init(&self) -> (World, M) {
        let mut wd = World { timestamp: 50, ..World::default() };
        wd.acct(X).code = Code::Native(crate::x_20::run);
        wd.set_slot(X, 5, n(1_000_000));
        wd.acct(W).code = Code::Native(crate::x_20_wrapper::run);
        wd.set_slot(W, 3, (U256::from(10) << 160) | U256::from_be_bytes(X.into_word().0));
        wd.acct(V).code = Code::Native(crate::x_4626::run);
        wd.set_slot(V, 5, (U256::from(18) << 160) | U256::from_be_bytes(X.into_word().0));
        wd.acct(S).code = Code::Native(crate::x_safe::run);
        wd.acct(Y).code = Code::Native(crate::x_vesting::run);
        wd.set_slot(Y, 0, U256::from_be_bytes(self.who[0].into_word().0));
        wd.set_slot(Y, 3, (U256::from(DUR) << 64) | U256::from(T0));
        (wd, M { x: M20::new(X), w: M20::new(W), v: M20::new(V), paused: false, now: 50, released: U256::ZERO, boss: self.who[0] })
    }
    fn ops(&self, _: &M) -> Vec<Op> {
        let (p, q) = (self.who[0], self.who[1]);
        let mut v = vec![Op::Pause(true), Op::Pause(false)];
        for &k in &self.vals {
            v.push(Op::Mint(p, k));
            for &(x, y) in &[(p, q), (q, p)] {
                match self.part {
                    0 => {
                        v.push(Op::Approve(x, W, k));
                        v.push(Op::Wrap(x, y, k));
                        v.push(Op::Wrap(x, x, k));
                        v.push(Op::Unwrap(x, y, k));
                        v.push(Op::Unwrap(x, x, k));
                        v.push(Op::Send(x, W, k));
                    }
                    1 => {
                        v.push(Op::Approve(x, V, k));
                        v.push(Op::Deposit(x, y, k));
                        v.push(Op::Deposit(x, x, k));
                        v.push(Op::MintShares(x, x, k));
                        v.push(Op::Withdraw(x, x, x, k));
                        v.push(Op::Withdraw(x, y, y, k));
                        v.push(Op::Redeem(x, y, x, k));
                        v.push(Op::Send(x, V, k));
                    }
                    _ => {
                        v.push(Op::Send(x, Y, k));
                        v.push(Op::Send(x, S, k));
                        v.push(Op::Approve(x, S, k));
                        v.push(Op::Safe(y, k));
                        v.push(Op::SafeFrom(x, y, k));
                        v.push(Op::Release(x));
                        v.push(Op::NewBoss(x, y));
                    }
                }
            }
        }
        if self.part == 2 {
            for t in [T0 - 1, T0, T0 + 1, T0 + 5, T0 + DUR - 1, T0 + DUR] {
                v.push(Op::Clock(t));
            }
        }
        v
    }
    fn apply(&self, m: &mut M, op: &Op) -> Result<bool, String> {
        let nine = addr(9);
        let one = |v: U256| enc(&[u(v)]);
        let (r, by, to, call, ret): (Step, Address, Address, Vec<u8>, Vec<u8>) = match *op {
            Op::Clock(t) => {
                if t < m.now {
                    return Ok(false);
                }
                m.now = t;
                with(|vm| vm.world.timestamp = t);
                return Ok(true);
            }
            Op::Mint(x, k) => (m.all(|m| if m.paused || m.x.supply + k > n(1_000_000) { Err(vec![]) } else { m.x.mint(x, k) }), nine, X, cd("mint(address,uint256)", &[a(x), u(k)]), vec![]),
            Op::Send(x, y, k) => (m.all(|m| m.pay(x, x, y, k)), x, X, cd("transfer(address,uint256)", &[a(y), u(k)]), ret_true()),
            Op::Approve(x, y, k) => (m.all(|m| m.x.approve(x, y, k)), x, X, cd("approve(address,uint256)", &[a(y), u(k)]), ret_true()),
            Op::Pause(on) => {
                let r = if m.paused == on { Err(vec![]) } else { Ok(vec![ev(X, if on { "Paused(address)" } else { "Unpaused(address)" }, &[], &[a(nine)])]) };
                m.paused = on;
                (r, nine, X, cd(if on { "pause()" } else { "unpause()" }, &[]), vec![])
            }
            Op::Wrap(x, y, k) => {
                let r = m.all(|m| {
                    let mut l = m.pay(W, x, W, k)?;
                    l.extend(m.w.mint(y, k)?);
                    Ok(l)
                });
                (r, x, W, cd("depositFor(address,uint256)", &[a(y), u(k)]), ret_true())
            }
            Op::Unwrap(x, y, k) => {
                let r = m.all(|m| {
                    let mut l = m.w.burn(x, k)?;
                    l.extend(m.pay(W, W, y, k)?);
                    Ok(l)
                });
                (r, x, W, cd("withdrawTo(address,uint256)", &[a(y), u(k)]), ret_true())
            }
            Op::Deposit(x, y, k) => {
                let sh = m.shares(k, false);
                (m.all(|m| m.enter(x, y, k, sh.ok_or(vec![])?)), x, V, cd("deposit(uint256,address)", &[u(k), a(y)]), one(sh.unwrap_or_default()))
            }
            Op::MintShares(x, y, k) => {
                let w = m.worth(k, true);
                (m.all(|m| m.enter(x, y, w.ok_or(vec![])?, k)), x, V, cd("mint(uint256,address)", &[u(k), a(y)]), one(w.unwrap_or_default()))
            }
            Op::Withdraw(x, y, o, k) => {
                let sh = m.shares(k, true);
                let max = m.worth(m.v.b(o), false);
                let r = m.all(|m| if max.is_none_or(|t| k > t) { Err(vec![]) } else { m.leave(x, y, o, k, sh.ok_or(vec![])?) });
                (r, x, V, cd("withdraw(uint256,address,address)", &[u(k), a(y), a(o)]), one(sh.unwrap_or_default()))
            }
            Op::Redeem(x, y, o, k) => {
                let w = m.worth(k, false);
                let r = m.all(|m| if k > m.v.b(o) { Err(vec![]) } else { m.leave(x, y, o, w.ok_or(vec![])?, k) });
                (r, x, V, cd("redeem(uint256,address,address)", &[u(k), a(y), a(o)]), one(w.unwrap_or_default()))
            }
            Op::Release(by) => {
                let due = m.vested() - m.released;
                let r = m.all(|m| {
                    m.released += due;
                    let boss = m.boss;
                    let mut l = vec![ev(Y, "ERC20Released(address,uint256)", &[a(X)], &[u(due)])];
                    let t = m.pay(Y, Y, boss, due)?;
                    l.splice(0..0, t);
                    Ok(l)
                });
                // the order of the two events is not promised
                let out = host::tx(by, Y, U256::ZERO, cd("release(address)", &[a(X)]));
                if out.ok != r.is_ok() {
                    return Err(format!("{op:?}: success is {} instead of {}", out.ok, r.is_ok()));
                }
                if let Ok(l) = &r {
                    let mut got = with(|vm| vm.logs.clone());
                    if got.len() == 2 && got[0].addr == Y {
                        got.swap(0, 1);
                    }
                    if &got != l {
                        return Err(format!("{op:?}: events {got:?} instead of {l:?}"));
                    }
                }
                return Ok(r.is_ok());
            }
            Op::NewBoss(by, x) => {
                let r = if m.boss == by { Ok(vec![ev(Y, "OwnershipTransferred(address,address)", &[a(by), a(x)], &[])]) } else { Err(vec![]) };
                if r.is_ok() {
                    m.boss = x;
                }
                (r, by, Y, cd("transferOwnership(address)", &[a(x)]), vec![])
            }
            Op::Safe(y, k) => (m.all(|m| m.pay(S, S, y, k)), nine, S, cd("safeTransfer(address,address,uint256)", &[a(X), a(y), u(k)]), vec![]),
            Op::SafeFrom(x, y, k) => (m.all(|m| m.pay(S, x, y, k)), nine, S, cd("safeTransferFrom(address,address,address,uint256)", &[a(X), a(x), a(y), u(k)]), vec![]),
        };
        step(&format!("{op:?}"), by, to, call, &expect(&r, ret))?;
        Ok(r.is_ok())
    }
    fn check(&self, m: &M) -> Result<(), String> {
        let (p, q) = (self.who[0], self.who[1]);
        m.x.check_views(&[p, q, W, V, Y, S])?;
        match self.part {
            0 => {
                m.w.check_views(&[p, q, W])?;
                if m.w.supply > m.x.b(W) {
                    return Err("wrapped tokens without backing".into());
                }
            }
            1 => {
                m.v.check_views(&[p, q, V])?;
                must_view("totalAssets", p, V, cd("totalAssets()", &[]), &enc(&[u(m.assets())]))?;
                for k in [n(1), n(7)] {
                    for (sg, x) in [
                        ("previewDeposit(uint256)", m.shares(k, false)),
                        ("previewMint(uint256)", m.worth(k, true)),
                        ("previewWithdraw(uint256)", m.shares(k, true)),
                        ("previewRedeem(uint256)", m.worth(k, false)),
                        ("convertToShares(uint256)", m.shares(k, false)),
                        ("convertToAssets(uint256)", m.worth(k, false)),
                    ] {
                        must_view(sg, p, V, cd(sg, &[u(k)]), &enc(&[u(x.unwrap())]))?;
                    }
                }
                for x in [p, q] {
                    must_view("maxWithdraw", p, V, cd("maxWithdraw(address)", &[a(x)]), &enc(&[u(m.worth(m.v.b(x), false).unwrap())]))?;
                    must_view("maxRedeem", p, V, cd("maxRedeem(address)", &[a(x)]), &enc(&[u(m.v.b(x))]))?;
                }
            }
            _ => {
                must_view("released", p, Y, cd("released(address)", &[a(X)]), &enc(&[u(m.released)]))?;
                must_view("releasable", p, Y, cd("releasable(address)", &[a(X)]), &enc(&[u(m.vested() - m.released)]))?;
                must_view("vestedAmount", p, Y, cd("vestedAmount(address,uint64)", &[a(X), w(m.now)]), &enc(&[u(m.vested())]))?;
                must_view("owner", p, Y, cd("owner()", &[]), &enc(&[a(m.boss)]))?;
            }
        }
        Ok(())
    }
}

// -------------------------------------------------- collection and wrapper
#[derive(Clone, Hash)]
struct MN {
    c: M721,
    d: M721,
    paused: bool,
}
#[derive(Clone, Debug)]
enum OpN {
    Mint(Address, U256),
    Move(Address, Address, U256),
    SafeMove(Address, Address, U256),
    All(Address),
    Approve(Address, U256),
    Burn(Address, U256),
    MoveW(Address, Address, U256),
    Wrap(Address, Address, Vec<U256>),
    Unwrap(Address, Address, Vec<U256>),
    Pause(bool),
}
struct SysN {
    who: Vec<Address>,
    ids: Vec<U256>,
    same: bool,
    /// the wrapper answers the standard receiver callback
    callback: bool,
}
/// Whether the wrapper example accepts a safe transfer of its underlying.
pub fn wrapper_callback() -> Result<bool, String> {
    let p = addr(1);
    let s = SysN { who: vec![], ids: vec![], same: true, callback: true };
    let wd = s.init().0;
    with(|vm| vm.world = wd);
    if !tx(p, C, U256::ZERO, cd("mint(address,uint256)", &[a(p), u(n(1))])).ok {
        return Err("mint refused".into());
    }
    let o = tx(p, C, U256::ZERO, cd("safeTransferFrom(address,address,uint256)", &[a(p), a(D), u(n(1))]));
    if o.ok {
        return Ok(true);
    }
    if o.data != cd("ERC721InvalidReceiver(address)", &[a(D)]) {
        return Err(format!("a safe transfer into the wrapper is refused with {:02x?}", o.data));
    }
    Ok(false)
}
impl MN {
    fn all(&mut self, f: impl FnOnce(&mut MN) -> Step) -> Step {
        let save = self.clone();
        let r = f(self).map_err(|_| vec![]);
        if r.is_err() {
            *self = save;
        }
        r
    }
    fn mv(&mut self, by: Address, from: Address, to: Address, id: U256, safe: Option<bool>) -> Step {
        if self.paused {
            return Err(vec![]);
        }
        let mut l = self.c.transfer_from(by, from, to, id)?;
        // the wrapper's own receiver callback wraps for the previous owner
        if safe == Some(false) && to == D {
            return Err(vec![]);
        }
        if safe.is_some() && to == D {
            l.extend(self.d.mint(from, id)?);
        }
        if safe.is_some() && to == C {
            return Err(vec![]);
        }
        Ok(l)
    }
}
impl System for SysN {
    type Model = MN;
    type Op = OpN;
    fn init(&self) -> (World, MN) {
        let mut wd = World::default();
        wd.acct(C).code = Code::Native(crate::x_721::run);
        wd.acct(D).code = Code::Native(crate::x_721_wrapper::run);
        wd.set_slot(D, 4, U256::from_be_bytes(C.into_word().0));
        (wd, MN { c: M721::new(C), d: M721::new(D), paused: false })
    }
    fn ops(&self, m: &MN) -> Vec<OpN> {
        let (p, q) = (self.who[0], self.who[1]);
        let mut v = vec![OpN::Pause(true), OpN::Pause(false), OpN::All(p)];
        for &id in &self.ids {
            // the wrapper itself never starts a transaction
            let o = m.c.o(id).filter(|o| *o != D).unwrap_or(p);
            let ow = m.d.o(id).unwrap_or(p);
            v.push(OpN::Mint(p, id));
            v.push(OpN::Burn(o, id));
            v.push(OpN::Approve(o, id));
            for t in [p, q, D] {
                if t == o && !self.same && m.c.o(id).is_some() {
                    continue;
                }
                v.push(OpN::Move(o, t, id));
                v.push(OpN::SafeMove(o, t, id));
            }
            v.push(OpN::MoveW(ow, q, id));
            v.push(OpN::MoveW(ow, p, id));
            for x in [p, q] {
                v.push(OpN::Wrap(x, p, vec![id]));
                v.push(OpN::Unwrap(x, q, vec![id]));
            }
        }
        v.push(OpN::Wrap(p, q, self.ids.clone()));
        v.push(OpN::Unwrap(q, p, self.ids.clone()));
        v.push(OpN::Wrap(p, p, vec![self.ids[0], self.ids[0]]));
        v
    }
    fn apply(&self, m: &mut MN, op: &OpN) -> Result<bool, String> {
        let nine = addr(9);
        let (r, by, to, call, ret): (Step, Address, Address, Vec<u8>, Vec<u8>) = match op.clone() {
            OpN::Mint(x, id) => (m.all(|m| if m.paused { Err(vec![]) } else { m.c.mint(x, id) }), nine, C, cd("mint(address,uint256)", &[a(x), u(id)]), vec![]),
            OpN::Burn(x, id) => (m.all(|m| if m.paused { Err(vec![]) } else { m.c.burn_by(x, id) }), x, C, cd("burn(uint256)", &[u(id)]), vec![]),
            OpN::Move(x, t, id) => (m.all(|m| m.mv(x, x, t, id, None)), x, C, cd("transferFrom(address,address,uint256)", &[a(x), a(t), u(id)]), vec![]),
            OpN::SafeMove(x, t, id) => (m.all(|m| m.mv(x, x, t, id, Some(self.callback))), x, C, cd("safeTransferFrom(address,address,uint256)", &[a(x), a(t), u(id)]), vec![]),
            OpN::All(x) => (m.all(|m| m.c.set_all(x, D, true)), x, C, cd("setApprovalForAll(address,bool)", &[a(D), b(true)]), vec![]),
            OpN::Approve(x, id) => (m.all(|m| m.c.approve(x, D, id)), x, C, cd("approve(address,uint256)", &[a(D), u(id)]), vec![]),
            OpN::MoveW(x, t, id) => (m.all(|m| m.d.transfer_from(x, x, t, id)), x, D, cd("transferFrom(address,address,uint256)", &[a(x), a(t), u(id)]), vec![]),
            OpN::Wrap(x, t, ids) => {
                let r = m.all(|m| {
                    let mut l = vec![];
                    for id in &ids {
                        l.extend(m.mv(D, x, D, *id, None)?);
                        l.extend(m.d.mint(t, *id)?);
                    }
                    Ok(l)
                });
                (r, x, D, cd("depositFor(address,uint256[])", &[a(t), us(&ids)]), ret_true())
            }
            OpN::Unwrap(x, t, ids) => {
                let r = m.all(|m| {
                    let mut l = vec![];
                    for id in &ids {
                        l.extend(m.d.burn_by(x, *id)?);
                        l.extend(m.mv(D, D, t, *id, Some(self.callback))?);
                    }
                    Ok(l)
                });
                (r, x, D, cd("withdrawTo(address,uint256[])", &[a(t), us(&ids)]), ret_true())
            }
            OpN::Pause(on) => {
                let r = if m.paused == on { Err(vec![]) } else { Ok(vec![ev(C, if on { "Paused(address)" } else { "Unpaused(address)" }, &[], &[a(nine)])]) };
                m.paused = on;
                (r, nine, C, cd(if on { "pause()" } else { "unpause()" }, &[]), vec![])
            }
        };
        step(&format!("{op:?}"), by, to, call, &expect(&r, ret))?;
        Ok(r.is_ok())
    }
    fn check(&self, m: &MN) -> Result<(), String> {
        let who = [self.who[0], self.who[1], D];
        m.c.check_views(&who, &self.ids)?;
        m.d.check_views(&who, &self.ids)?;
        check_enum(&m.c, &who, who[0])?;
        for id in m.d.owner.keys() {
            if m.c.o(*id) != Some(D) {
                return Err(format!("wrapped token {id} without its original"));
            }
        }
        Ok(())
    }
}

pub fn run(c: &mut Check, same: bool, callback: bool) {
    let who = vec![addr(1), addr(2)];
    for (part, name) in [(0, "erc20 + erc20-wrapper examples"), (1, "erc20 + erc4626 examples"), (2, "erc20 + vesting-wallet + safe-erc20 examples")] {
        let s = Sys { who: who.clone(), vals: vec![n(1), n(5)], part };
        c.run(name, "two accounts, amounts 1 and 5, the asset paused at any point", &s, c.q(6, 8));
    }
    let s = SysN { who, ids: vec![n(1), n(2)], same, callback };
    c.run("erc721 + erc721-wrapper examples", "two tokens, two accounts, direct and safe transfers into the wrapper, batches, the collection paused at any point", &s, c.q(6, 8));
}
