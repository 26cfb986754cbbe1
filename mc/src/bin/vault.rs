//! C05 (ERC-20 wrapper), C06 (ERC-4626), C07 (SafeErc20).
extern crate alloc;
use alloy_primitives::{Address, U256, U512, U8};
use mc::abi::*;
use mc::erc20ref::*;
use mc::mocktok::{self, Mode, MODES};
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::token::erc20::{
    self,
    extensions::{erc4626, wrapper, Erc20Wrapper, Erc4626, IErc20Wrapper, IErc4626},
    utils::SafeErc20,
    Erc20,
};
use std::collections::BTreeMap;
use stylus_sdk::prelude::*;

const ASSET: Address = Address::new([0x70; 20]);
const VAULT: Address = Address::new([0x80; 20]);
const SAFE: Address = Address::new([0x90; 20]);
const ZERO: Address = Address::ZERO;

#[storage]
struct Tok {
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for Tok {}
#[public]
#[inherit(Erc20)]
impl Tok {
    fn mint(&mut self, to: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, v)
    }
}

#[storage]
struct Wrap {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    wrapper: Erc20Wrapper,
}
unsafe impl TopLevelStorage for Wrap {}
#[public]
#[inherit(Erc20)]
impl Wrap {
    fn decimals(&self) -> U8 {
        self.wrapper.decimals()
    }
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn deposit_for(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, value, &mut self.erc20)
    }
    fn withdraw_to(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.withdraw_to(account, value, &mut self.erc20)
    }
    fn recover(&mut self, account: Address) -> Result<U256, wrapper::Error> {
        self.wrapper._recover(account, &mut self.erc20)
    }
}

#[storage]
struct Vault {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    erc4626: Erc4626,
}
unsafe impl TopLevelStorage for Vault {}
#[public]
#[inherit(Erc20)]
impl Vault {
    fn decimals(&self) -> U8 {
        self.erc4626.decimals()
    }
    fn asset(&self) -> Address {
        self.erc4626.asset()
    }
    fn total_assets(&mut self) -> Result<U256, erc4626::Error> {
        self.erc4626.total_assets()
    }
    fn convert_to_shares(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.convert_to_shares(v, &self.erc20)
    }
    fn convert_to_assets(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.convert_to_assets(v, &self.erc20)
    }
    fn max_deposit(&self, r: Address) -> U256 {
        self.erc4626.max_deposit(r)
    }
    fn max_mint(&self, r: Address) -> U256 {
        self.erc4626.max_mint(r)
    }
    fn max_withdraw(&mut self, r: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.max_withdraw(r, &self.erc20)
    }
    fn max_redeem(&self, r: Address) -> U256 {
        self.erc4626.max_redeem(r, &self.erc20)
    }
    fn preview_deposit(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.preview_deposit(v, &self.erc20)
    }
    fn preview_mint(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.preview_mint(v, &self.erc20)
    }
    fn preview_withdraw(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.preview_withdraw(v, &self.erc20)
    }
    fn preview_redeem(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.preview_redeem(v, &self.erc20)
    }
    fn deposit(&mut self, v: U256, r: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.deposit(v, r, &mut self.erc20)
    }
    fn mint(&mut self, v: U256, r: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.mint(v, r, &mut self.erc20)
    }
    fn withdraw(&mut self, v: U256, r: Address, o: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.withdraw(v, r, o, &mut self.erc20)
    }
    fn redeem(&mut self, v: U256, r: Address, o: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.redeem(v, r, o, &mut self.erc20)
    }
}

fn failed_op(token: Address) -> Vec<u8> {
    cd("SafeErc20FailedOperation(address)", &[a(token)])
}
fn n(v: u64) -> U256 {
    U256::from(v)
}

// =============================================================== C05 wrapper
#[derive(Clone, Debug)]
enum WOp {
    MintU(Address, U256),
    ApproveU(Address, U256),
    Direct(Address, U256),
    TransferW(Address, Address, U256),
    ApproveW(Address, Address, U256),
    TransferFromW(Address, Address, Address, U256),
    Deposit(Address, Address, U256),
    Withdraw(Address, Address, U256),
    Recover(Address),
}
#[derive(Clone, Hash)]
struct WM {
    u: M20,
    w: M20,
}
struct WSys {
    callers: Vec<Address>,
    parties: Vec<Address>,
    amounts: Vec<U256>,
    premint: U256,
    sharing: bool,
}
impl System for WSys {
    type Model = WM;
    type Op = WOp;
    fn init(&self) -> (World, WM) {
        let mut wd = World::default();
        wd.acct(ASSET).code = native!(Tok);
        wd.acct(VAULT).code = native!(Wrap);
        wd.set_slot(VAULT, 3, U256::from_be_bytes(ASSET.into_word().0) | (n(6) << 160));
        with(|vm| vm.world = wd);
        let mut m = WM { u: M20::new(ASSET), w: M20::new(VAULT) };
        tx(addr(99), ASSET, U256::ZERO, cd("mint(address,uint256)", &[a(addr(1)), u(self.premint)]));
        let _ = m.u.mint(addr(1), self.premint);
        (with(|vm| vm.world.clone()), m)
    }
    fn ops(&self, _: &WM) -> Vec<WOp> {
        let mut o = vec![];
        let first = self.callers[0];
        for v in &self.amounts {
            o.push(WOp::MintU(first, *v));
            for c in &self.callers {
                if *c != VAULT {
                    o.push(WOp::ApproveU(*c, *v));
                    o.push(WOp::Direct(*c, *v));
                }
                for p in &self.parties {
                    o.push(WOp::Deposit(*c, *p, *v));
                    o.push(WOp::Withdraw(*c, *p, *v));
                    if self.sharing {
                        o.push(WOp::TransferW(*c, *p, *v));
                    }
                }
            }
            if self.sharing {
                o.push(WOp::ApproveW(first, self.callers[1], *v));
                o.push(WOp::TransferFromW(self.callers[1], first, VAULT, *v));
            }
        }
        for p in &self.parties {
            o.push(WOp::Recover(*p));
        }
        o
    }
    fn apply(&self, m: &mut WM, op: &WOp) -> Result<bool, String> {
        let save = m.clone();
        let (from, to, data, st, ret): (Address, Address, Vec<u8>, Step, Vec<u8>) = match op.clone() {
            WOp::MintU(t, v) => (addr(99), ASSET, cd("mint(address,uint256)", &[a(t), u(v)]), m.u.mint(t, v), vec![]),
            WOp::ApproveU(c, v) => (c, ASSET, cd("approve(address,uint256)", &[a(VAULT), u(v)]), m.u.approve(c, VAULT, v), ret_true()),
            WOp::Direct(c, v) => (c, ASSET, cd("transfer(address,uint256)", &[a(VAULT), u(v)]), m.u.transfer(c, VAULT, v), ret_true()),
            WOp::TransferW(c, t, v) => (c, VAULT, cd("transfer(address,uint256)", &[a(t), u(v)]), m.w.transfer(c, t, v), ret_true()),
            WOp::ApproveW(c, t, v) => (c, VAULT, cd("approve(address,uint256)", &[a(t), u(v)]), m.w.approve(c, t, v), ret_true()),
            WOp::TransferFromW(c, f, t, v) => {
                (c, VAULT, cd("transferFrom(address,address,uint256)", &[a(f), a(t), u(v)]), m.w.transfer_from(c, f, t, v), ret_true())
            }
            WOp::Deposit(c, p, v) => {
                let mut e = vec![];
                if c == VAULT {
                    e.push(e_sender(c));
                }
                if p == VAULT {
                    e.push(e_receiver(p));
                }
                if p == ZERO {
                    e.push(e_receiver(p));
                }
                let r = m.u.transfer_from(VAULT, c, VAULT, v);
                let mut logs = vec![];
                match r {
                    Ok(l) => logs.extend(l),
                    Err(_) => e.push(failed_op(ASSET)),
                }
                let st = if e.is_empty() {
                    m.w.mint(p, v).map(|l| {
                        logs.extend(l);
                        logs
                    })
                } else {
                    Err(e)
                };
                (c, VAULT, cd("depositFor(address,uint256)", &[a(p), u(v)]), st, ret_true())
            }
            WOp::Withdraw(c, p, v) => {
                let mut e = vec![];
                if p == VAULT {
                    e.push(e_receiver(p));
                }
                let mut logs = vec![];
                match m.w.burn(c, v) {
                    Ok(l) => logs.extend(l),
                    Err(x) => e.extend(x),
                }
                match m.u.transfer(VAULT, p, v) {
                    Ok(l) => logs.extend(l),
                    Err(_) => e.push(failed_op(ASSET)),
                }
                (c, VAULT, cd("withdrawTo(address,uint256)", &[a(p), u(v)]), if e.is_empty() { Ok(logs) } else { Err(e) }, ret_true())
            }
            WOp::Recover(p) => {
                let v = m.u.b(VAULT) - m.w.supply;
                let st = if v.is_zero() { Ok(vec![]) } else { m.w.mint(p, v) };
                (addr(99), VAULT, cd("recover(address)", &[a(p)]), st, enc(&[u(v)]))
            }
        };
        if st.is_err() {
            *m = save;
        }
        step(&format!("{op:?}"), from, to, data, &expect(&st, ret))?;
        Ok(st.is_ok())
    }
    fn check(&self, m: &WM) -> Result<(), String> {
        let mut who = self.callers.clone();
        for p in &self.parties {
            if !who.contains(p) {
                who.push(*p);
            }
        }
        for p in m.u.bal.keys().chain(m.w.bal.keys()) {
            if !who.contains(p) {
                who.push(*p);
            }
        }
        m.u.check_views(&who)?;
        m.w.check_views(&who)?;
        if m.w.supply > m.u.b(VAULT) {
            return Err("wrapped supply exceeds underlying holdings".into());
        }
        must_view("decimals", who[0], VAULT, cd("decimals()", &[]), &enc(&[w(6)]))?;
        must_view("underlying", who[0], VAULT, cd("underlying()", &[]), &enc(&[a(ASSET)]))
    }
}

/// Wrapper over a misbehaving underlying token.
#[derive(Clone, Debug)]
enum BOp {
    Mode(Mode),
    Deposit(Address, Address, U256),
    Withdraw(Address, Address, U256),
    Recover(Address),
}
#[derive(Clone, Hash)]
struct BM {
    mode: Mode,
    ub: BTreeMap<Address, U256>,
    w: M20,
}
struct BSys {
    amounts: Vec<U256>,
}
impl BSys {
    fn mv(m: &mut BM, f: Address, t: Address, v: U256) -> bool {
        let bf = m.ub.get(&f).copied().unwrap_or_default();
        if bf < v || t.is_zero() {
            return false;
        }
        m.ub.insert(f, bf - v);
        let bt = m.ub.get(&t).copied().unwrap_or_default();
        m.ub.insert(t, bt + v);
        m.ub.retain(|_, v| !v.is_zero());
        true
    }
}
impl System for BSys {
    type Model = BM;
    type Op = BOp;
    fn init(&self) -> (World, BM) {
        let mut wd = World::default();
        wd.acct(ASSET).code = Code::Native(mocktok::mock_token);
        wd.acct(VAULT).code = native!(Wrap);
        wd.set_slot(VAULT, 3, U256::from_be_bytes(ASSET.into_word().0));
        with(|vm| vm.world = wd);
        let (x, y) = (addr(1), addr(2));
        // fund by a scripted direct write through the mock's own storage keys
        fn fund(_: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
            mc::host::my_set(mocktok::T_BAL, addr(1), ZERO, U256::from(4));
            mc::host::my_set(mocktok::T_BAL, addr(2), ZERO, U256::from(4));
            mc::host::my_set(mocktok::T_BAL, VAULT, ZERO, U256::from(1));
            mc::host::my_set(mocktok::T_ALLOW, addr(1), VAULT, U256::MAX);
            mc::host::my_set(mocktok::T_ALLOW, addr(2), VAULT, U256::MAX);
            Ok(vec![])
        }
        with(|vm| vm.world.acct(ASSET).code = Code::Native(fund));
        tx(addr(99), ASSET, U256::ZERO, vec![]);
        with(|vm| vm.world.acct(ASSET).code = Code::Native(mocktok::mock_token));
        let ub = [(x, n(4)), (y, n(4)), (VAULT, n(1))].into_iter().collect();
        (with(|vm| vm.world.clone()), BM { mode: Mode::Normal, ub, w: M20::new(VAULT) })
    }
    fn ops(&self, _: &BM) -> Vec<BOp> {
        let mut o: Vec<BOp> = MODES.iter().map(|m| BOp::Mode(*m)).collect();
        let (x, y) = (addr(1), addr(2));
        for v in &self.amounts {
            o.push(BOp::Deposit(x, x, *v));
            o.push(BOp::Deposit(x, y, *v));
            o.push(BOp::Withdraw(x, x, *v));
            o.push(BOp::Withdraw(y, x, *v));
        }
        o.push(BOp::Recover(y));
        o
    }
    fn apply(&self, m: &mut BM, op: &BOp) -> Result<bool, String> {
        let save = m.clone();
        let (from, data, st, ret): (Address, Vec<u8>, Step, Vec<u8>) = match op.clone() {
            BOp::Mode(k) => {
                if m.mode == k {
                    return Ok(false);
                }
                m.mode = k;
                with(|vm| mocktok::set_mode(&mut vm.world, ASSET, k));
                return Ok(true);
            }
            BOp::Deposit(c, p, v) => {
                let ok = m.mode.reports_success() && Self::mv(m, c, VAULT, v);
                let st = if ok { m.w.mint(p, v) } else { Err(vec![failed_op(ASSET)]) };
                (c, cd("depositFor(address,uint256)", &[a(p), u(v)]), st, ret_true())
            }
            BOp::Withdraw(c, p, v) => {
                let mut e = vec![];
                let r = m.w.burn(c, v);
                if let Err(x) = &r {
                    e.extend(x.clone());
                }
                if !(m.mode.reports_success() && Self::mv(m, VAULT, p, v)) {
                    e.push(failed_op(ASSET));
                }
                (c, cd("withdrawTo(address,uint256)", &[a(p), u(v)]), if e.is_empty() { r } else { Err(e) }, ret_true())
            }
            BOp::Recover(p) => {
                if matches!(m.mode, Mode::BalanceRevert | Mode::BalanceEmpty) {
                    let e = |t: Address| cd("ERC20InvalidUnderlying(address)", &[a(t)]);
                    (addr(99), cd("recover(address)", &[a(p)]), Err(vec![e(ASSET)]), vec![])
                } else {
                    let v = m.ub.get(&VAULT).copied().unwrap_or_default() - m.w.supply;
                    let st = if v.is_zero() { Ok(vec![]) } else { m.w.mint(p, v) };
                    (addr(99), cd("recover(address)", &[a(p)]), st, enc(&[u(v)]))
                }
            }
        };
        if st.is_err() {
            *m = save;
        }
        // the mock's allowance is unlimited but decreases: keep it topped up
        step(&format!("{op:?} under {:?}", m.mode), from, VAULT, data, &expect(&st, ret))?;
        fn top(_: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
            mc::host::my_set(mocktok::T_ALLOW, addr(1), VAULT, U256::MAX);
            Ok(vec![])
        }
        with(|vm| vm.world.acct(ASSET).code = Code::Native(top));
        tx(addr(99), ASSET, U256::ZERO, vec![]);
        with(|vm| vm.world.acct(ASSET).code = Code::Native(mocktok::mock_token));
        Ok(st.is_ok())
    }
    fn check(&self, m: &BM) -> Result<(), String> {
        let (x, y) = (addr(1), addr(2));
        m.w.check_views(&[x, y, VAULT])?;
        if !matches!(m.mode, Mode::BalanceRevert | Mode::BalanceEmpty) {
            for p in [x, y, VAULT] {
                must_view("underlying balance", x, ASSET, cd("balanceOf(address)", &[a(p)]), &enc(&[u(m.ub.get(&p).copied().unwrap_or_default())]))?;
            }
        }
        if m.w.supply > m.ub.get(&VAULT).copied().unwrap_or_default() {
            return Err("wrapped supply exceeds underlying holdings".into());
        }
        Ok(())
    }
}

// =============================================================== C06 vault
#[derive(Clone, Debug)]
enum VOp {
    Donate(Address, U256),
    TransferS(Address, Address, U256),
    ApproveS(Address, Address, U256),
    ApproveA(Address, U256),
    Deposit(Address, U256, Address),
    Mint(Address, U256, Address),
    Withdraw(Address, U256, Address, Address),
    Redeem(Address, U256, Address, Address),
}
#[derive(Clone, Hash)]
struct VM4 {
    a: M20,
    s: M20,
}
struct VSys {
    offset: u64,
    decimals: u64,
    fund: U256,
    amounts: Vec<U256>,
    donations: Vec<U256>,
    probes: Vec<U256>,
    callers: Vec<Address>,
    allowances: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Rd {
    Floor,
    Ceil,
}
fn mul_div(x: U256, y: U256, d: U256, r: Rd) -> Option<U256> {
    // exact 512-bit quotient and remainder
    let p = U512::from(x) * U512::from(y);
    let d = U512::from(d);
    if d.is_zero() {
        return None;
    }
    let mut q = p / d;
    if r == Rd::Ceil && !(p % d).is_zero() {
        q += U512::from(1);
    }
    if q > U512::from(U256::MAX) {
        None
    } else {
        Some(U256::from(q))
    }
}
impl VSys {
    fn virt(&self) -> Option<U256> {
        U256::from(10).checked_pow(U256::from(self.offset))
    }
    fn to_shares(&self, m: &VM4, x: U256, r: Rd) -> Option<U256> {
        let mul = m.s.supply.checked_add(self.virt()?)?;
        let den = m.a.b(VAULT).checked_add(n(1))?;
        mul_div(x, mul, den, r)
    }
    fn to_assets(&self, m: &VM4, x: U256, r: Rd) -> Option<U256> {
        let mul = m.a.b(VAULT).checked_add(n(1))?;
        let den = m.s.supply.checked_add(self.virt()?)?;
        mul_div(x, mul, den, r)
    }
    fn do_deposit(&self, m: &mut VM4, c: Address, r: Address, assets: U256, shares: U256) -> Step {
        let mut logs = vec![];
        let mut e = vec![];
        match m.a.transfer_from(VAULT, c, VAULT, assets) {
            Ok(l) => logs.extend(l),
            Err(_) => e.push(failed_op(ASSET)),
        }
        match m.s.mint(r, shares) {
            Ok(l) => logs.extend(l),
            Err(x) if x.is_empty() && e.is_empty() => return Err(vec![]),
            Err(x) => e.extend(x),
        }
        if !e.is_empty() {
            return Err(e);
        }
        logs.push(ev(VAULT, "Deposit(address,address,uint256,uint256)", &[a(c), a(r)], &[u(assets), u(shares)]));
        Ok(logs)
    }
    fn do_withdraw(&self, m: &mut VM4, c: Address, r: Address, o: Address, assets: U256, shares: U256) -> Step {
        let mut logs = vec![];
        let mut e = vec![];
        if c != o {
            if let Err(x) = m.s.spend(o, c, shares) {
                e.extend(x);
            }
        }
        match m.s.burn(o, shares) {
            Ok(l) => logs.extend(l),
            Err(x) => e.extend(x),
        }
        match m.a.transfer(VAULT, r, assets) {
            Ok(l) => logs.extend(l),
            Err(_) => e.push(failed_op(ASSET)),
        }
        if !e.is_empty() {
            return Err(e);
        }
        logs.push(ev(VAULT, "Withdraw(address,address,address,uint256,uint256)", &[a(c), a(r), a(o)], &[u(assets), u(shares)]));
        Ok(logs)
    }
}
impl System for VSys {
    type Model = VM4;
    type Op = VOp;
    fn init(&self) -> (World, VM4) {
        let mut wd = World::default();
        wd.acct(ASSET).code = native!(Tok);
        wd.acct(VAULT).code = native!(Vault);
        wd.set_slot(VAULT, 3, U256::from_be_bytes(ASSET.into_word().0) | (n(self.decimals) << 160) | (n(self.offset) << 168));
        with(|vm| vm.world = wd);
        let mut m = VM4 { a: M20::new(ASSET), s: M20::new(VAULT) };
        for i in [1u8, 2] {
            tx(addr(99), ASSET, U256::ZERO, cd("mint(address,uint256)", &[a(addr(i)), u(self.fund)]));
            let _ = m.a.mint(addr(i), self.fund);
            tx(addr(i), ASSET, U256::ZERO, cd("approve(address,uint256)", &[a(VAULT), u(U256::MAX)]));
            let _ = m.a.approve(addr(i), VAULT, U256::MAX);
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn ops(&self, _: &VM4) -> Vec<VOp> {
        let mut o = vec![];
        let (x, y) = (addr(1), addr(2));
        for v in &self.amounts {
            for c in &self.callers {
                o.push(VOp::Deposit(*c, *v, *c));
                o.push(VOp::Mint(*c, *v, *c));
                o.push(VOp::Withdraw(*c, *v, *c, *c));
                o.push(VOp::Redeem(*c, *v, *c, *c));
            }
            if self.allowances {
                o.push(VOp::Deposit(x, *v, y));
                o.push(VOp::Mint(x, *v, y));
                o.push(VOp::Withdraw(y, *v, y, x));
                o.push(VOp::Redeem(y, *v, addr(3), x));
                o.push(VOp::Withdraw(y, *v, x, x));
                o.push(VOp::Redeem(y, *v, x, x));
                o.push(VOp::ApproveS(x, y, *v));
                o.push(VOp::TransferS(x, y, *v));
                o.push(VOp::Withdraw(x, *v, VAULT, x));
            }
        }
        if self.allowances {
            let one = n(1);
            o.push(VOp::ApproveS(x, y, U256::MAX));
            o.push(VOp::ApproveA(x, one));
            o.push(VOp::Deposit(x, one, ZERO));
            o.push(VOp::Mint(x, one, ZERO));
            o.push(VOp::Withdraw(x, one, ZERO, x));
            o.push(VOp::Redeem(x, one, ZERO, x));
            o.push(VOp::Withdraw(x, n(0), x, ZERO));
            o.push(VOp::Redeem(x, one, x, ZERO));
            o.push(VOp::Deposit(addr(3), one, x));
        }
        for v in &self.donations {
            o.push(VOp::Donate(y, *v));
        }
        o
    }
    fn apply(&self, m: &mut VM4, op: &VOp) -> Result<bool, String> {
        let save = m.clone();
        let (from, to, data, st, ret): (Address, Address, Vec<u8>, Step, Vec<u8>) = match op.clone() {
            VOp::Donate(c, v) => (c, ASSET, cd("transfer(address,uint256)", &[a(VAULT), u(v)]), m.a.transfer(c, VAULT, v), ret_true()),
            VOp::TransferS(c, t, v) => (c, VAULT, cd("transfer(address,uint256)", &[a(t), u(v)]), m.s.transfer(c, t, v), ret_true()),
            VOp::ApproveS(c, t, v) => (c, VAULT, cd("approve(address,uint256)", &[a(t), u(v)]), m.s.approve(c, t, v), ret_true()),
            VOp::ApproveA(c, v) => (c, ASSET, cd("approve(address,uint256)", &[a(VAULT), u(v)]), m.a.approve(c, VAULT, v), ret_true()),
            VOp::Deposit(c, v, r) => {
                let (st, ret) = match self.to_shares(m, v, Rd::Floor) {
                    None => (Err(vec![]), vec![]),
                    Some(sh) => (self.do_deposit(m, c, r, v, sh), enc(&[u(sh)])),
                };
                (c, VAULT, cd("deposit(uint256,address)", &[u(v), a(r)]), st, ret)
            }
            VOp::Mint(c, v, r) => {
                let (st, ret) = match self.to_assets(m, v, Rd::Ceil) {
                    None => (Err(vec![]), vec![]),
                    Some(x) => (self.do_deposit(m, c, r, x, v), enc(&[u(x)])),
                };
                (c, VAULT, cd("mint(uint256,address)", &[u(v), a(r)]), st, ret)
            }
            VOp::Withdraw(c, v, r, o) => {
                let (st, ret) = match self.to_assets(m, m.s.b(o), Rd::Floor) {
                    None => (Err(vec![]), vec![]),
                    Some(max) if v > max => {
                        (Err(vec![cd("ERC4626ExceededMaxWithdraw(address,uint256,uint256)", &[a(o), u(v), u(max)])]), vec![])
                    }
                    Some(_) => match self.to_shares(m, v, Rd::Ceil) {
                        None => (Err(vec![]), vec![]),
                        Some(sh) => (self.do_withdraw(m, c, r, o, v, sh), enc(&[u(sh)])),
                    },
                };
                (c, VAULT, cd("withdraw(uint256,address,address)", &[u(v), a(r), a(o)]), st, ret)
            }
            VOp::Redeem(c, v, r, o) => {
                let max = m.s.b(o);
                let (st, ret) = if v > max {
                    (Err(vec![cd("ERC4626ExceededMaxRedeem(address,uint256,uint256)", &[a(o), u(v), u(max)])]), vec![])
                } else {
                    match self.to_assets(m, v, Rd::Floor) {
                        None => (Err(vec![]), vec![]),
                        Some(x) => (self.do_withdraw(m, c, r, o, x, v), enc(&[u(x)])),
                    }
                };
                (c, VAULT, cd("redeem(uint256,address,address)", &[u(v), a(r), a(o)]), st, ret)
            }
        };
        if st.is_err() {
            *m = save.clone();
        }
        step(&format!("{op:?}"), from, to, data, &expect(&st, ret))?;
        // the price of a share never falls: (A'+1)(S+v) >= (A+1)(S'+v)
        if let Some(v) = self.virt() {
            let f = |x: &VM4| U512::from(x.a.b(VAULT)) + U512::from(1);
            let g = |x: &VM4| U512::from(x.s.supply) + U512::from(v);
            let (big1, big2) = (f(m).checked_mul(g(&save)), f(&save).checked_mul(g(m)));
            if let (Some(l), Some(r)) = (big1, big2) {
                if l < r {
                    return Err(format!("{op:?}: the value of a share fell"));
                }
            }
        }
        Ok(st.is_ok())
    }
    fn check(&self, m: &VM4) -> Result<(), String> {
        let mut who = vec![addr(1), addr(2), addr(3), VAULT, ZERO];
        for p in m.a.bal.keys().chain(m.s.bal.keys()) {
            if !who.contains(p) {
                who.push(*p);
            }
        }
        m.a.check_views(&who)?;
        m.s.check_views(&who)?;
        let q = addr(1);
        must_view("asset", q, VAULT, cd("asset()", &[]), &enc(&[a(ASSET)]))?;
        if self.decimals + self.offset < 256 {
            must_view("decimals", q, VAULT, cd("decimals()", &[]), &enc(&[w(self.decimals + self.offset)]))?;
        } else {
            must_fail_view("decimals", q, VAULT, cd("decimals()", &[]), &[])?;
        }
        must_view("totalAssets", q, VAULT, cd("totalAssets()", &[]), &enc(&[u(m.a.b(VAULT))]))?;
        let opt = |name: &str, sg: &str, arg: T, v: Option<U256>| match v {
            Some(x) => must_view(name, q, VAULT, cd(sg, &[arg]), &enc(&[u(x)])),
            None => must_fail_view(name, q, VAULT, cd(sg, &[arg]), &[]),
        };
        for p in &self.probes {
            let (sf, sc) = (self.to_shares(m, *p, Rd::Floor), self.to_shares(m, *p, Rd::Ceil));
            let (af, ac) = (self.to_assets(m, *p, Rd::Floor), self.to_assets(m, *p, Rd::Ceil));
            opt("convertToShares", "convertToShares(uint256)", u(*p), sf)?;
            opt("convertToAssets", "convertToAssets(uint256)", u(*p), af)?;
            opt("previewDeposit", "previewDeposit(uint256)", u(*p), sf)?;
            opt("previewMint", "previewMint(uint256)", u(*p), ac)?;
            opt("previewWithdraw", "previewWithdraw(uint256)", u(*p), sc)?;
            opt("previewRedeem", "previewRedeem(uint256)", u(*p), af)?;
        }
        for x in who {
            opt("maxDeposit", "maxDeposit(address)", a(x), Some(U256::MAX))?;
            opt("maxMint", "maxMint(address)", a(x), Some(U256::MAX))?;
            opt("maxRedeem", "maxRedeem(address)", a(x), Some(m.s.b(x)))?;
            opt("maxWithdraw", "maxWithdraw(address)", a(x), self.to_assets(m, m.s.b(x), Rd::Floor))?;
        }
        // claims never exceed holdings
        let mut sum = U512::ZERO;
        for v in m.s.bal.values() {
            sum += U512::from(self.to_assets(m, *v, Rd::Floor).unwrap_or_default());
        }
        if sum > U512::from(m.a.b(VAULT)) {
            return Err("redeemable claims exceed the vault's assets".into());
        }
        Ok(())
    }
}

// =============================================================== C07 safe erc20
#[derive(Clone, Debug)]
enum SOp {
    Mode(Mode),
    Transfer(Address, U256),
    TransferFrom(Address, Address, U256),
    Increase(Address, U256),
    Decrease(Address, U256),
    Force(Address, U256),
}
#[derive(Clone, Hash)]
struct SM {
    mode: Mode,
    bal: BTreeMap<Address, U256>,
    al: BTreeMap<Address, U256>, // SAFE -> spender
}
struct SSys {
    code: bool,
    funded: bool,
    amounts: Vec<U256>,
    modes: Vec<Mode>,
}
const FROM: Address = Address::new([0xf1; 20]);
impl SSys {
    fn get(m: &BTreeMap<Address, U256>, x: Address) -> U256 {
        m.get(&x).copied().unwrap_or_default()
    }
    fn can_call(&self, m: &SM) -> bool {
        self.code && m.mode.reports_success()
    }
    /// effect of force_approve: Some(ok)
    fn force(&self, m: &mut SM, s: Address, v: U256) -> bool {
        if !self.can_call(m) || (m.mode == Mode::ZeroRefused && v.is_zero()) {
            return false;
        }
        m.al.insert(s, v);
        m.al.retain(|_, v| !v.is_zero());
        true
    }
}
impl System for SSys {
    type Model = SM;
    type Op = SOp;
    fn init(&self) -> (World, SM) {
        let mut wd = World::default();
        wd.acct(SAFE).code = native!(SafeErc20);
        let mut m = SM { mode: Mode::Normal, bal: BTreeMap::new(), al: BTreeMap::new() };
        if !self.code {
            if self.funded {
                wd.acct(ASSET).balance = n(5);
            }
            return (wd, m);
        }
        fn fund(_: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
            mc::host::my_set(mocktok::T_BAL, SAFE, ZERO, U256::from(4));
            mc::host::my_set(mocktok::T_BAL, FROM, ZERO, U256::from(4));
            mc::host::my_set(mocktok::T_ALLOW, FROM, SAFE, U256::from(4));
            Ok(vec![])
        }
        wd.acct(ASSET).code = Code::Native(fund);
        with(|vm| vm.world = wd);
        tx(addr(99), ASSET, U256::ZERO, vec![]);
        with(|vm| vm.world.acct(ASSET).code = Code::Native(mocktok::mock_token));
        m.bal = [(SAFE, n(4)), (FROM, n(4))].into_iter().collect();
        (with(|vm| vm.world.clone()), m)
    }
    fn ops(&self, _: &SM) -> Vec<SOp> {
        let mut o: Vec<SOp> = self.modes.iter().map(|m| SOp::Mode(*m)).collect();
        for v in &self.amounts {
            for s in [addr(1), addr(2)] {
                o.push(SOp::Increase(s, *v));
                o.push(SOp::Decrease(s, *v));
                o.push(SOp::Force(s, *v));
            }
            o.push(SOp::Transfer(addr(1), *v));
            o.push(SOp::TransferFrom(FROM, addr(2), *v));
        }
        o
    }
    fn apply(&self, m: &mut SM, op: &SOp) -> Result<bool, String> {
        let save = m.clone();
        let tk = a(ASSET);
        let failed = || Err(vec![failed_op(ASSET)]);
        let mut calls: Option<Vec<Vec<u8>>> = None;
        let (data, st): (Vec<u8>, Step) = match op.clone() {
            SOp::Mode(k) => {
                if m.mode == k {
                    return Ok(false);
                }
                m.mode = k;
                with(|vm| mocktok::set_mode(&mut vm.world, ASSET, k));
                return Ok(true);
            }
            SOp::Transfer(t, v) => {
                let bf = Self::get(&m.bal, SAFE);
                calls = Some(vec![cd("transfer(address,uint256)", &[a(t), u(v)])]);
                let st = if self.can_call(m) && bf >= v {
                    m.bal.insert(SAFE, bf - v);
                    let bt = Self::get(&m.bal, t);
                    m.bal.insert(t, bt + v);
                    Ok(vec![])
                } else {
                    failed()
                };
                (cd("safeTransfer(address,address,uint256)", &[tk, a(t), u(v)]), st)
            }
            SOp::TransferFrom(f, t, v) => {
                let bf = Self::get(&m.bal, f);
                calls = Some(vec![cd("transferFrom(address,address,uint256)", &[a(f), a(t), u(v)])]);
                // FROM's allowance to SAFE starts equal to its balance and both fall together
                let st = if self.can_call(m) && bf >= v {
                    m.bal.insert(f, bf - v);
                    let bt = Self::get(&m.bal, t);
                    m.bal.insert(t, bt + v);
                    Ok(vec![])
                } else {
                    failed()
                };
                (cd("safeTransferFrom(address,address,address,uint256)", &[tk, a(f), a(t), u(v)]), st)
            }
            SOp::Force(s, v) => {
                let st = if self.force(m, s, v) { Ok(vec![]) } else { failed() };
                (cd("forceApprove(address,address,uint256)", &[tk, a(s), u(v)]), st)
            }
            SOp::Increase(s, v) => {
                let readable = self.code && !matches!(m.mode, Mode::AllowanceRevert | Mode::AllowanceEmpty | Mode::AllowanceShort);
                let cur = Self::get(&m.al, s);
                let st = if !readable {
                    failed()
                } else {
                    match cur.checked_add(v) {
                        None => Err(vec![]),
                        Some(x) => {
                            if self.force(m, s, x) {
                                Ok(vec![])
                            } else {
                                failed()
                            }
                        }
                    }
                };
                (cd("safeIncreaseAllowance(address,address,uint256)", &[tk, a(s), u(v)]), st)
            }
            SOp::Decrease(s, v) => {
                let readable = self.code && !matches!(m.mode, Mode::AllowanceRevert | Mode::AllowanceEmpty | Mode::AllowanceShort);
                let cur = Self::get(&m.al, s);
                let st = if !readable {
                    failed()
                } else if cur < v {
                    Err(vec![cd("SafeErc20FailedDecreaseAllowance(address,uint256,uint256)", &[a(s), u(cur), u(v)])])
                } else if self.force(m, s, cur - v) {
                    Ok(vec![])
                } else {
                    failed()
                };
                (cd("safeDecreaseAllowance(address,address,uint256)", &[tk, a(s), u(v)]), st)
            }
        };
        m.bal.retain(|_, v| !v.is_zero());
        if st.is_err() {
            *m = save;
        }
        step(&format!("{op:?} under {:?}", m.mode), addr(50), SAFE, data, &expect(&st, vec![]))?;
        if let (Some(c), true) = (calls, st.is_ok()) {
            let got: Vec<Vec<u8>> = with(|vm| vm.calls.iter().map(|c| c.data.clone()).collect());
            if got != c {
                return Err(format!("{op:?}: token received {:?}", got.iter().map(|x| show(x)).collect::<Vec<_>>()));
            }
            if with(|vm| vm.calls.iter().any(|c| c.to != ASSET || !c.value.is_zero())) {
                return Err(format!("{op:?}: called something else than the token"));
            }
        }
        Ok(st.is_ok())
    }
    fn check(&self, m: &SM) -> Result<(), String> {
        if !self.code {
            return Ok(());
        }
        // read the mock in normal mode
        let saved = with(|vm| vm.world.clone());
        with(|vm| mocktok::set_mode(&mut vm.world, ASSET, Mode::Normal));
        let mut r = Ok(());
        for x in [SAFE, FROM, addr(1), addr(2)] {
            r = r.and(must_view("token balance", x, ASSET, cd("balanceOf(address)", &[a(x)]), &enc(&[u(Self::get(&m.bal, x))])));
            r = r.and(must_view("token allowance", x, ASSET, cd("allowance(address,address)", &[a(SAFE), a(x)]), &enc(&[u(Self::get(&m.al, x))])));
        }
        with(|vm| vm.world = saved);
        r
    }
}

/// A vault over a misbehaving asset: whatever the asset answers, shares are
/// issued only for assets that arrived and burned only for assets that left.
#[derive(Clone, Debug)]
enum MOp {
    Mode(Mode),
    Do(VOp),
}
#[derive(Clone, Hash)]
struct MM {
    mode: Mode,
    v: VM4,
}
struct MSys {
    amounts: Vec<U256>,
}
impl System for MSys {
    type Model = MM;
    type Op = MOp;
    fn init(&self) -> (World, MM) {
        let mut wd = World::default();
        wd.acct(VAULT).code = native!(Vault);
        wd.set_slot(VAULT, 3, U256::from_be_bytes(ASSET.into_word().0));
        fn fund(_: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
            for i in [1, 2] {
                mc::host::my_set(mocktok::T_BAL, addr(i), ZERO, U256::from(6));
                mc::host::my_set(mocktok::T_ALLOW, addr(i), VAULT, U256::MAX);
            }
            mc::host::my_set(mocktok::T_BAL, VAULT, ZERO, U256::from(1));
            Ok(vec![])
        }
        wd.acct(ASSET).code = Code::Native(fund);
        with(|vm| vm.world = wd);
        tx(addr(99), ASSET, U256::ZERO, vec![]);
        with(|vm| vm.world.acct(ASSET).code = Code::Native(mocktok::mock_token));
        let mut v = VM4 { a: M20::new(ASSET), s: M20::new(VAULT) };
        v.a.bal = [(addr(1), n(6)), (addr(2), n(6)), (VAULT, n(1))].into_iter().collect();
        (with(|vm| vm.world.clone()), MM { mode: Mode::Normal, v })
    }
    fn ops(&self, _: &MM) -> Vec<MOp> {
        let mut o: Vec<MOp> = MODES.iter().map(|m| MOp::Mode(*m)).collect();
        let (x, y) = (addr(1), addr(2));
        for v in &self.amounts {
            o.push(MOp::Do(VOp::Deposit(x, *v, x)));
            o.push(MOp::Do(VOp::Mint(x, *v, y)));
            o.push(MOp::Do(VOp::Withdraw(x, *v, y, x)));
            o.push(MOp::Do(VOp::Redeem(y, *v, y, y)));
        }
        o
    }
    fn apply(&self, m: &mut MM, op: &MOp) -> Result<bool, String> {
        let vop = match op {
            MOp::Mode(k) => {
                if m.mode == *k {
                    return Ok(false);
                }
                m.mode = *k;
                with(|vm| mocktok::set_mode(&mut vm.world, ASSET, *k));
                return Ok(true);
            }
            MOp::Do(v) => v.clone(),
        };
        let save = m.clone();
        let sys = VSys { offset: 0, decimals: 0, fund: n(0), amounts: vec![], donations: vec![], probes: vec![], callers: vec![], allowances: false };
        let blind = matches!(m.mode, Mode::BalanceRevert | Mode::BalanceEmpty);
        let works = m.mode.reports_success();
        let mut e = vec![];
        if blind {
            e.push(cd("InvalidAsset(address)", &[a(ASSET)]));
        }
        if !works {
            e.push(failed_op(ASSET));
        }
        let (c, data, assets, shares, r, o, max): (Address, Vec<u8>, U256, U256, Address, Option<Address>, Option<(U256, Vec<u8>)>) = match vop {
            VOp::Deposit(c, v, r) => (c, cd("deposit(uint256,address)", &[u(v), a(r)]), v, sys.to_shares(&m.v, v, Rd::Floor).unwrap(), r, None, None),
            VOp::Mint(c, v, r) => (c, cd("mint(uint256,address)", &[u(v), a(r)]), sys.to_assets(&m.v, v, Rd::Ceil).unwrap(), v, r, None, None),
            VOp::Withdraw(c, v, r, o) => {
                let max = sys.to_assets(&m.v, m.v.s.b(o), Rd::Floor).unwrap();
                let x = cd("ERC4626ExceededMaxWithdraw(address,uint256,uint256)", &[a(o), u(v), u(max)]);
                (c, cd("withdraw(uint256,address,address)", &[u(v), a(r), a(o)]), v, sys.to_shares(&m.v, v, Rd::Ceil).unwrap(), r, Some(o), (v > max).then_some((max, x)))
            }
            VOp::Redeem(c, v, r, o) => {
                let max = m.v.s.b(o);
                let x = cd("ERC4626ExceededMaxRedeem(address,uint256,uint256)", &[a(o), u(v), u(max)]);
                (c, cd("redeem(uint256,address,address)", &[u(v), a(r), a(o)]), sys.to_assets(&m.v, v, Rd::Floor).unwrap(), v, r, Some(o), (v > max).then_some((max, x)))
            }
            _ => unreachable!(),
        };
        if let Some((_, x)) = max {
            e.push(x);
        } else {
            let (f, t) = if o.is_some() { (VAULT, r) } else { (c, VAULT) };
            let bf = m.v.a.b(f);
            if bf < assets {
                e.push(failed_op(ASSET));
            } else {
                m.v.a.bal.insert(f, bf - assets);
                let bt = m.v.a.b(t);
                m.v.a.bal.insert(t, bt + assets);
                m.v.a.bal.retain(|_, v| !v.is_zero());
            }
        }
        let mut st: Step = if !e.is_empty() {
            Err(e)
        } else if let Some(o) = o {
            m.v.s.burn(o, shares)
        } else {
            m.v.s.mint(r, shares)
        };
        if let Ok(l) = &mut st {
            l.push(match o {
                Some(o) => ev(VAULT, "Withdraw(address,address,address,uint256,uint256)", &[a(c), a(r), a(o)], &[u(assets), u(shares)]),
                None => ev(VAULT, "Deposit(address,address,uint256,uint256)", &[a(c), a(r)], &[u(assets), u(shares)]),
            });
        } else {
            *m = save;
        }
        let ret = if data[..4] == selector("deposit(uint256,address)") || data[..4] == selector("withdraw(uint256,address,address)") { shares } else { assets };
        step(&format!("{op:?} under {:?}", m.mode), c, VAULT, data, &expect(&st, enc(&[u(ret)])))?;
        fn top(_: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
            mc::host::my_set(mocktok::T_ALLOW, addr(1), VAULT, U256::MAX);
            Ok(vec![])
        }
        with(|vm| vm.world.acct(ASSET).code = Code::Native(top));
        tx(addr(99), ASSET, U256::ZERO, vec![]);
        with(|vm| vm.world.acct(ASSET).code = Code::Native(mocktok::mock_token));
        Ok(st.is_ok())
    }
    fn check(&self, m: &MM) -> Result<(), String> {
        let (x, y) = (addr(1), addr(2));
        m.v.s.check_views(&[x, y, VAULT])?;
        let sys = VSys { offset: 0, decimals: 0, fund: n(0), amounts: vec![], donations: vec![], probes: vec![], callers: vec![], allowances: false };
        if matches!(m.mode, Mode::BalanceRevert | Mode::BalanceEmpty) {
            let e = [cd("InvalidAsset(address)", &[a(ASSET)])];
            for (sg, args) in [("totalAssets()", vec![]), ("convertToShares(uint256)", vec![w(3)]), ("convertToAssets(uint256)", vec![w(3)]), ("previewDeposit(uint256)", vec![w(3)]), ("previewMint(uint256)", vec![w(3)]), ("previewWithdraw(uint256)", vec![w(3)]), ("previewRedeem(uint256)", vec![w(3)]), ("maxWithdraw(address)", vec![a(x)])] {
                must_fail_view(sg, x, VAULT, cd(sg, &args), &e)?;
            }
        } else {
            for p in [x, y, VAULT] {
                must_view("asset balance", x, ASSET, cd("balanceOf(address)", &[a(p)]), &enc(&[u(m.v.a.b(p))]))?;
            }
            must_view("totalAssets", x, VAULT, cd("totalAssets()", &[]), &enc(&[u(m.v.a.b(VAULT))]))?;
            must_view("maxWithdraw", x, VAULT, cd("maxWithdraw(address)", &[a(x)]), &enc(&[u(sys.to_assets(&m.v, m.v.s.b(x), Rd::Floor).unwrap())]))?;
        }
        Ok(())
    }
}

/// Amounts at every limb boundary.
fn wide() -> Vec<U256> {
    let p2 = |e: usize| U256::from(1) << e;
    let mut am: Vec<U256> = vec![n(0), n(3)];
    for e in [0usize, 8, 31, 32, 63, 64, 95, 96, 127, 128, 160, 191, 192, 224, 254, 255] {
        am.extend([p2(e) - n(1), p2(e), p2(e) + n(1)]);
    }
    am.extend([U256::MAX - n(1), U256::MAX]);
    am.sort();
    am.dedup();
    am
}
fn accounts() -> Vec<Address> {
    let mut v = vec![addr(1), addr(2), VAULT, ASSET, SAFE, ZERO, Address::new([0xff; 20]), addr(99)];
    for k in 0..160 {
        let bit = U256::from(1) << k;
        for base in [U256::ZERO, U256::from_be_bytes(addr(1).into_word().0), U256::from_be_bytes(VAULT.into_word().0)] {
            let x = Address::from_word(alloy_primitives::B256::from(base ^ bit));
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v
}
fn c05_wide(c: &mut Check) {
    let (x, y) = (addr(1), addr(2));
    let am = wide();
    let cases: Vec<(U256, U256)> = am.iter().flat_map(|p| am.iter().map(move |v| (*p, *v))).collect();
    c.enumerate("amounts over the whole width", "every pair of holdings and amount at every limb boundary: exact, one less and one more approved; two deposits, partial withdrawals, direct transfer, recovery", &cases, |(pre, v)| {
        let s = WSys { callers: vec![x, y], parties: vec![x, y], amounts: vec![], premint: *pre, sharing: false };
        let one = n(1);
        let mut any = false;
        for al in [*v, v.saturating_sub(one), U256::MAX] {
            any |= mc::engine::script(&s, &[WOp::ApproveU(x, al), WOp::Deposit(x, y, *v), WOp::Deposit(x, x, *v), WOp::Withdraw(y, x, v.saturating_sub(one)), WOp::Withdraw(y, y, one), WOp::Withdraw(y, y, one)])?;
        }
        any |= mc::engine::script(&s, &[WOp::Direct(x, *v), WOp::ApproveU(x, U256::MAX), WOp::Deposit(x, x, one), WOp::Recover(y), WOp::Recover(y), WOp::Withdraw(y, x, *v)])?;
        Ok(any)
    });
    let cases: Vec<(Address, usize)> = accounts().into_iter().flat_map(|p| (0..3).map(move |k| (p, k))).collect();
    c.enumerate("accounts", "deposits for, withdrawals to and recovery for every one-bit address, every one-bit neighbour of a holder and of the wrapper, the tokens themselves and zero", &cases, |(p, k)| {
        let s = WSys { callers: vec![x, y], parties: vec![x, y, *p], amounts: vec![], premint: n(9), sharing: false };
        let mut ops = vec![WOp::ApproveU(x, n(9)), WOp::Deposit(x, x, n(3)), WOp::Direct(x, n(1))];
        ops.push(match k {
            0 => WOp::Deposit(x, *p, n(2)),
            1 => WOp::Withdraw(x, *p, n(2)),
            _ => WOp::Recover(*p),
        });
        if !p.is_zero() && *p != VAULT {
            ops.push(WOp::Withdraw(*p, y, n(1)));
            ops.push(WOp::TransferW(*p, y, n(1)));
        }
        mc::engine::script(&s, &ops)
    });
    let lens: Vec<usize> = (1..=c.q(40, 200)).collect();
    c.enumerate("long series", "1..40 (thorough 200) deposits of growing size followed by the withdrawals in another order", &lens, |l| {
        let s = WSys { callers: vec![x, y], parties: vec![x, y], amounts: vec![], premint: n(100_000), sharing: false };
        let mut ops = vec![WOp::ApproveU(x, U256::MAX)];
        for i in 0..*l {
            ops.push(WOp::Deposit(x, [x, y][i % 2], n(i as u64 + 1)));
        }
        for i in (0..*l).rev() {
            ops.push(WOp::Withdraw([x, y][i % 2], [y, x, addr(3)][i % 3], n(i as u64 + 1)));
        }
        ops.push(WOp::Withdraw(x, x, n(1)));
        mc::engine::script(&s, &ops).map(|_| true)
    });
}
fn c06_wide(c: &mut Check) {
    let (x, y) = (addr(1), addr(2));
    let vs = |offset: u64, decimals: u64, fund: U256, probes: Vec<U256>| VSys { offset, decimals, fund, amounts: vec![], donations: vec![], probes, callers: vec![], allowances: false };
    let top: u64 = c.q(7, 17);
    let mut cases: Vec<(u64, u64, u64, u64)> = vec![];
    for offset in 0..3 {
        for d in 0..=top {
            for g in 0..=top {
                for v in 0..=top {
                    cases.push((offset, d, g, v));
                }
            }
        }
    }
    c.enumerate("deposit x donation x amount", "every initial deposit 0..7 (thorough 17), donation 0..7 (17) and amount 0..7 (17), offsets 0..2: each of the four operations, then everything redeemed", &cases, |(offset, d, g, v)| {
        let s = vs(*offset, 6, n(60), vec![n(*v), n(d + g)]);
        let mut any = false;
        for k in 0..4 {
            let op = match k {
                0 => VOp::Deposit(y, n(*v), y),
                1 => VOp::Mint(y, n(*v), y),
                2 => VOp::Withdraw(x, n(*v), y, x),
                _ => VOp::Redeem(x, n(*v), y, x),
            };
            let (w0, mut m) = s.init();
            with(|vm| vm.world = w0);
            for o in [VOp::Deposit(x, n(*d), x), VOp::Donate(y, n(*g)), op] {
                any |= s.apply(&mut m, &o)?;
            }
            s.check(&m)?;
            for p in [x, y] {
                let all = m.s.b(p);
                s.apply(&mut m, &VOp::Redeem(p, all, p, p))?;
            }
            s.check(&m)?;
            // depositing and redeeming after everybody else never pays
            if k < 2 && m.a.b(y) > n(60) {
                return Err(format!("y ends with {} after offset {offset}, deposit {d}, donation {g}, {k} {v}", m.a.b(y)));
            }
        }
        Ok(any)
    });
    let am = wide();
    let small: Vec<U256> = am.iter().step_by(c.q(3, 1)).copied().collect();
    let cases: Vec<(U256, U256, u64)> = small.iter().flat_map(|p| am.iter().flat_map(move |v| [0u64, 6, 30].into_iter().map(move |o| (*p, *v, o)))).collect();
    c.enumerate("amounts over the whole width", "initial deposits x second amounts at every limb boundary x offsets 0, 6, 30; the four operations in turn; previews at both amounts and their neighbours", &cases, |(p, v, o)| {
        let half = (U256::MAX >> 1) - n(1);
        let s = vs(*o, 0, half, vec![*p, *v, p.saturating_add(n(1)), v.saturating_sub(n(1))]);
        let mut any = mc::engine::script(&s, &[VOp::Deposit(x, *p, x), VOp::Donate(y, *v), VOp::Withdraw(x, *v, x, x), VOp::Redeem(x, *v, x, x)])?;
        any |= mc::engine::script(&s, &[VOp::Deposit(x, *p, x), VOp::Mint(y, *v, y), VOp::Redeem(y, *v, y, y), VOp::Withdraw(x, *p, x, x)])?;
        any |= mc::engine::script(&s, &[VOp::Donate(y, *v), VOp::Deposit(x, *p, x), VOp::Deposit(y, *v, y), VOp::Redeem(x, p.saturating_sub(n(1)), y, x)])?;
        Ok(any)
    });
    let cases: Vec<(u64, u64)> = (0..256u64).flat_map(|o| [0u64, 6, 18, 255 - o.min(255), (256 - o).min(255), 255].into_iter().map(move |d| (o, d))).collect();
    c.enumerate("offsets and decimals", "every decimals offset 0..255 x underlying decimals 0, 6, 18, the largest whose sum fits, the next, 255", &cases, |(o, d)| {
        let s = vs(*o, *d, n(20), vec![n(0), n(1), n(7), U256::MAX]);
        mc::engine::script(&s, &[VOp::Deposit(x, n(3), x), VOp::Donate(y, n(2)), VOp::Mint(y, n(5), y), VOp::Withdraw(x, n(1), x, x)])
    });
    let cases: Vec<(Address, usize)> = accounts().into_iter().flat_map(|p| (0..8).map(move |k| (p, k))).collect();
    c.enumerate("accounts", "every one-bit address, every one-bit neighbour of a depositor and of the vault, the tokens themselves and zero, as receiver, as owner, as spender and as caller", &cases, |(p, k)| {
        let s = vs(1, 6, n(50), vec![n(3)]);
        let mut ops = vec![VOp::Deposit(x, n(7), x), VOp::Donate(y, n(2))];
        match k {
            0 => ops.push(VOp::Deposit(x, n(5), *p)),
            1 => ops.push(VOp::Mint(x, n(5), *p)),
            2 => ops.push(VOp::Withdraw(x, n(3), *p, x)),
            3 => ops.push(VOp::Redeem(x, n(30), *p, x)),
            4 => ops.push(VOp::Withdraw(x, n(0), x, *p)),
            5 => ops.push(VOp::Redeem(x, n(1), x, *p)),
            6 => ops.extend([VOp::Deposit(x, n(5), *p), VOp::Withdraw(x, n(2), x, *p), VOp::Redeem(x, n(2), x, *p)]),
            _ => {
                if p.is_zero() || *p == VAULT {
                    return Ok(false);
                }
                ops.extend([VOp::Withdraw(*p, n(2), *p, x), VOp::Redeem(*p, n(2), *p, x), VOp::Withdraw(*p, n(2), x, x), VOp::Redeem(*p, n(2), x, x), VOp::Withdraw(*p, n(2), y, x), VOp::Redeem(*p, n(2), VAULT, x), VOp::Deposit(*p, n(1), x), VOp::Mint(*p, n(1), *p)]);
                ops.extend([VOp::ApproveS(x, *p, n(25)), VOp::Withdraw(*p, n(2), *p, x), VOp::Redeem(*p, n(2), x, x), VOp::Withdraw(*p, n(0), x, x), VOp::Redeem(*p, n(20), *p, x), VOp::Redeem(*p, n(3), y, x)]);
            }
        }
        mc::engine::script(&s, &ops).map(|_| true)
    });
    let lens: Vec<usize> = (1..=c.q(40, 150)).collect();
    c.enumerate("long series", "1..40 (thorough 150) deposits and mints of growing size with donations between them, then withdrawals and redemptions", &lens, |l| {
        let s = vs(0, 6, n(1_000_000), vec![n(1), n(1000)]);
        let mut ops = vec![];
        for i in 0..*l {
            let v = n(i as u64 * 3 + 1);
            ops.push(if i % 2 == 0 { VOp::Deposit([x, y][i / 2 % 2], v, x) } else { VOp::Mint(x, v, y) });
            if i % 3 == 0 {
                ops.push(VOp::Donate(y, v));
            }
        }
        for i in 0..*l {
            let v = n(i as u64 * 2 + 1);
            let p = [x, y][i % 2];
            ops.push(if i % 3 == 0 { VOp::Withdraw(p, v, y, p) } else { VOp::Redeem(p, v, x, p) });
        }
        mc::engine::script(&s, &ops).map(|_| true)
    });
}

/// A token answering with bytes of a chosen length and content.
fn raw_token(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    let read = input.len() >= 4 && input[..4] == selector("allowance(address,address)");
    let at = if read { 2 } else { 0 };
    let len = mc::host::my_slot(at).to::<usize>();
    let mut out = mc::host::my_slot(at + 1).to_be_bytes::<32>().to_vec();
    out.resize(len.max(32), 0xa5);
    out.truncate(len);
    Ok(out)
}
fn c07_wide(c: &mut Check) {
    let p2 = |e: usize| U256::from(1) << e;
    let run = |len: usize, word: U256, alen: usize, al: U256, k: usize, to: Address, v: U256| -> Result<bool, String> {
        let mut wd = World::default();
        wd.acct(SAFE).code = native!(SafeErc20);
        wd.acct(ASSET).code = Code::Native(raw_token);
        for (i, x) in [n(len as u64), word, n(alen as u64), al].into_iter().enumerate() {
            wd.set_slot(ASSET, i as u64, x);
        }
        with(|vm| vm.world = wd);
        let before = with(|vm| vm.world.fingerprint());
        // fewer than 32 bytes reading as the number one: the library's own unit
        // tests accept it, the ABI does not; not judged
        if len > 0 && len < 32 && word >> (256 - 8 * len) == n(1) {
            return Ok(false);
        }
        let good = len == 0 || (len >= 32 && word == n(1));
        let tk = a(ASSET);
        let apr = |x: U256| cd("approve(address,uint256)", &[a(to), u(x)]);
        let (data, want): (Vec<u8>, Option<Vec<u8>>) = match k {
            0 => (cd("safeTransfer(address,address,uint256)", &[tk, a(to), u(v)]), Some(cd("transfer(address,uint256)", &[a(to), u(v)]))),
            1 => (cd("safeTransferFrom(address,address,address,uint256)", &[tk, a(FROM), a(to), u(v)]), Some(cd("transferFrom(address,address,uint256)", &[a(FROM), a(to), u(v)]))),
            2 => (cd("forceApprove(address,address,uint256)", &[tk, a(to), u(v)]), Some(apr(v))),
            3 => (cd("safeIncreaseAllowance(address,address,uint256)", &[tk, a(to), u(v)]), al.checked_add(v).map(apr)),
            _ => (cd("safeDecreaseAllowance(address,address,uint256)", &[tk, a(to), u(v)]), al.checked_sub(v).map(apr)),
        };
        let ex = if k >= 3 && alen < 32 {
            Expect::Err(vec![failed_op(ASSET)])
        } else if k == 3 && want.is_none() {
            Expect::Fail
        } else if want.is_none() {
            Expect::Err(vec![cd("SafeErc20FailedDecreaseAllowance(address,uint256,uint256)", &[a(to), u(al), u(v)])])
        } else if good {
            Expect::Ok(vec![], vec![])
        } else {
            Expect::Err(vec![failed_op(ASSET)])
        };
        let what = format!("operation {k}, answer of {len} bytes with {word:#x}, allowance answer of {alen} bytes with {al:#x}, account {to}, value {v:#x}");
        step(&what, addr(50), SAFE, data, &ex)?;
        let done = matches!(ex, Expect::Ok(..));
        if done {
            let got: Vec<Vec<u8>> = with(|vm| vm.calls.iter().map(|c| c.data.clone()).collect());
            if got.last() != want.as_ref() || (k < 2 && got.len() != 1) {
                return Err(format!("{what}: the token received {:?}", got.iter().map(|x| show(x)).collect::<Vec<_>>()));
            }
            if k >= 3 && !got.contains(&cd("allowance(address,address)", &[a(SAFE), a(to)])) {
                return Err(format!("{what}: the current allowance was not read"));
            }
            if with(|vm| vm.calls.iter().any(|c| c.to != ASSET || !c.value.is_zero())) {
                return Err(format!("{what}: called something else than the token"));
            }
        }
        if with(|vm| vm.world.fingerprint()) != before {
            return Err(format!("{what}: left a trace in storage"));
        }
        Ok(done)
    };
    let mut words = vec![n(0), n(1), n(2), U256::MAX, U256::MAX - n(1)];
    for k in 0..256 {
        words.extend([p2(k), p2(k) | n(1)]);
    }
    words.sort();
    words.dedup();
    let mut cases: Vec<(usize, U256, usize)> = vec![];
    for k in 0..5 {
        for x in &words {
            cases.extend([31usize, 32, 33, 64].iter().map(|l| (*l, *x, k)));
        }
        for l in (0..=c.q(100, 300)).chain([1024, 4096]) {
            cases.extend([n(0), n(1), p2(248), p2(255) | n(1), U256::MAX].iter().map(|x| (l, *x, k)));
        }
    }
    c.enumerate("answers of every length and content", "answers of 0..100 (thorough 300), 1024 and 4096 bytes; every single-bit word and every single-bit change of true; the five operations", &cases, |(l, x, k)| run(*l, *x, 32, n(9), *k, addr(1), n(4)));
    let cases: Vec<(usize, usize)> = (0..=c.q(100, 300)).chain([1024]).flat_map(|l| [3usize, 4].into_iter().map(move |k| (l, k))).collect();
    c.enumerate("allowance answers of every length", "0..100 (thorough 300) and 1024 bytes", &cases, |(l, k)| run(0, n(0), *l, n(9), *k, addr(1), n(4)));
    let am = wide();
    let mut cases: Vec<(U256, U256, usize)> = am.iter().flat_map(|x| am.iter().flat_map(move |y| (3..5).map(move |k| (*x, *y, k)))).collect();
    for x in &am {
        cases.extend([(*x, *x, 3), (*x, U256::MAX - *x, 3), (*x, (U256::MAX - *x).wrapping_add(n(1)), 3), (*x, x.saturating_add(n(1)), 4), (*x, x.saturating_sub(n(1)), 4)]);
        cases.extend((0..3).map(|k| (n(0), *x, k)));
    }
    c.enumerate("amounts over the whole width", "current allowance x change at every limb boundary and exactly at and over the limits; transfers and approvals of every such amount", &cases, |(al, v, k)| run(32, n(1), 32, *al, *k, addr(1), *v));
    let cases: Vec<(Address, usize)> = accounts().into_iter().flat_map(|p| (0..5).map(move |k| (p, k))).collect();
    c.enumerate("accounts", "every one-bit address and neighbour, the token, the caller's own contract, zero, as recipient or spender: forwarded as given", &cases, |(p, k)| run(0, n(0), 32, n(9), *k, *p, n(4)));
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    let (x, y) = (addr(1), addr(2));
    match id.as_str() {
        "C05" => {
            let s = WSys { callers: vec![x, y, VAULT], parties: vec![x, y, VAULT, ZERO], amounts: vec![n(0), n(1), n(2)], premint: n(3), sharing: false };
            c.run("wrap-unwrap", "2 users + the wrapper itself as caller; accounts incl. wrapper and zero; amounts 0..2", &s, c.q(6, 10));
            let s = WSys { callers: vec![x, y], parties: vec![x, y, VAULT], amounts: vec![n(1), n(2)], premint: n(3), sharing: true };
            c.run("wrapped tokens circulate", "with wrapped transfers, allowances, tokens sent to the wrapper", &s, c.q(6, 10));
            let s = WSys { callers: vec![x, y], parties: vec![x, ZERO], amounts: vec![n(1), U256::from(1) << 128, U256::MAX - n(1), U256::MAX], premint: U256::MAX - n(1), sharing: false };
            c.run("edge amounts", "amounts 1, 2^128, MAX-1, MAX", &s, c.q(5, 7));
            let s = BSys { amounts: vec![n(0), n(1), n(3)] };
            c.run("misbehaving underlying", "22 token behaviours switchable at any point", &s, c.q(6, 10));
            c05_wide(&mut c);
        }
        "C06" => {
            let probes = vec![n(0), n(1), n(2), n(3), n(7), n(10), n(99), n(1000), U256::from(1) << 128, U256::MAX - n(1), U256::MAX];
            for offset in [0u64, 1, 3] {
                let s = VSys { offset, decimals: 6, fund: n(20), amounts: vec![n(1), n(2), n(7)], donations: vec![n(1), n(5)], probes: probes.clone(), callers: vec![x, y], allowances: false };
                c.run(&format!("rounding, offset {offset}"), "2 depositors, amounts 1,2,7, donations 1,5", &s, c.q(4, 5));
            }
            let s = VSys { offset: 0, decimals: 18, fund: n(10), amounts: vec![n(0), n(1), n(3)], donations: vec![n(2)], probes: vec![n(1), n(3)], callers: vec![x], allowances: true };
            c.run("third parties and allowances", "withdraw/redeem for another owner, other receivers, zero addresses, share transfers", &s, c.q(4, 5));
            let s = VSys { offset: 2, decimals: 0, fund: (U256::MAX >> 1) - n(1), amounts: vec![n(1), U256::from(1) << 128, (U256::MAX >> 1) - n(1), U256::MAX], donations: vec![n(1), (U256::MAX >> 1) - n(1)], probes: probes.clone(), callers: vec![x, y], allowances: false };
            c.run("edge amounts", "assets up to MAX-1 in total: overflowing conversions must fail", &s, c.q(3, 4));
            for offset in [77u64, 78, 200] {
                let s = VSys { offset, decimals: 0, fund: n(20), amounts: vec![n(1), n(7)], donations: vec![n(5)], probes: probes.clone(), callers: vec![x], allowances: false };
                c.run(&format!("huge offset {offset}"), "virtual shares near or beyond 2^256", &s, c.q(3, 4));
            }
            // a vault over an address without code
            let out = {
                let mut wd = World::default();
                wd.acct(VAULT).code = native!(Vault);
                wd.set_slot(VAULT, 3, U256::from_be_bytes(ASSET.into_word().0));
                with(|vm| vm.world = wd);
                let e = cd("InvalidAsset(address)", &[a(ASSET)]);
                let mut r = Ok(());
                for (sg, args) in [
                    ("totalAssets()", vec![]),
                    ("convertToShares(uint256)", vec![w(1)]),
                    ("previewRedeem(uint256)", vec![w(1)]),
                    ("maxWithdraw(address)", vec![a(x)]),
                    ("deposit(uint256,address)", vec![w(1), a(x)]),
                    ("mint(uint256,address)", vec![w(1), a(x)]),
                    ("withdraw(uint256,address,address)", vec![w(0), a(x), a(x)]),
                    ("redeem(uint256,address,address)", vec![w(0), a(x), a(x)]),
                ] {
                    r = r.and(step(sg, x, VAULT, cd(sg, &args), &Expect::Err(vec![e.clone()])));
                }
                r
            };
            c.fact("asset without code", out);
            let s = MSys { amounts: vec![n(1), n(3)] };
            c.run("misbehaving asset", "22 token behaviours switchable at any point", &s, c.q(4, 6));
            c06_wide(&mut c);
        }
        "C07" => {
            let edge = vec![n(0), n(1), n(3), n(5), U256::MAX];
            for (code, funded, nm) in [(false, false, "no account"), (false, true, "account without code")] {
                let s = SSys { code, funded, amounts: edge.clone(), modes: vec![Mode::Normal] };
                c.run(nm, "target has no code", &s, 2);
            }
            let s = SSys { code: true, funded: false, amounts: vec![n(0), n(1), n(3), U256::MAX], modes: MODES.to_vec() };
            c.run("all behaviours", "22 token behaviours switchable at any point; amounts 0,1,3,MAX; two spenders", &s, c.q(5, 7));
            let s = SSys { code: true, funded: false, amounts: vec![n(0), n(1), n(2), U256::MAX - n(1)], modes: vec![Mode::Normal, Mode::ResetRequired, Mode::ResetFalse, Mode::NoReturn, Mode::EffectFalse, Mode::ZeroRefused] };
            c.run("allowance arithmetic", "tokens requiring reset to zero, false-returning, silent; deeper", &s, c.q(6, 10));
            c07_wide(&mut c);
        }
        _ => panic!("unknown property"),
    }
    c.assume("the host model (storage cache, revert, logs, calls) follows Stylus/Nitro semantics");
    c.finish()
}
