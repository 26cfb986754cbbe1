//! ERC-4626 vault and ERC-20 wrapper over a token that calls back; flash mint.
use crate::*;
use alloy_primitives::U512;
use mc::erc20ref::*;
use mc::host;
use mc::host::{caller, my_get, my_set, my_slot, sub_call};
use mc::mocktok::{T_ALLOW, T_BAL};
use openzeppelin_stylus::token::erc20::{
    self,
    extensions::{erc4626, flash_mint, wrapper, Erc20FlashMint, Erc20Wrapper, Erc4626, IErc20Wrapper, IErc3156FlashLender, IErc4626},
    Erc20,
};
use stylus_sdk::{abi::Bytes, prelude::*};

const ASSET: Address = Address::new([0x70; 20]);
const VAULT: Address = Address::new([0x80; 20]);

#[storage]
struct Wrap {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    wrapper: Erc20Wrapper,
}
unsafe impl TopLevelStorage for Wrap {}
#[public]
#[inherit(Erc20)]
impl Wrap {
    fn deposit_for(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, value, &mut self.erc20)
    }
    fn withdraw_to(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.withdraw_to(account, value, &mut self.erc20)
    }
    fn recover(&mut self, account: Address) -> Result<U256, wrapper::Error> {
        self.wrapper._recover(account, &mut self.erc20)
    }
}
#[storage]
struct Vault {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    erc4626: Erc4626,
}
unsafe impl TopLevelStorage for Vault {}
#[public]
#[inherit(Erc20)]
impl Vault {
    fn total_assets(&mut self) -> Result<U256, erc4626::Error> {
        self.erc4626.total_assets()
    }
    fn convert_to_shares(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.erc4626.convert_to_shares(v, &self.erc20)
    }
    fn max_withdraw(&mut self, r: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.max_withdraw(r, &self.erc20)
    }
    fn deposit(&mut self, v: U256, r: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.deposit(v, r, &mut self.erc20)
    }
    fn mint(&mut self, v: U256, r: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.mint(v, r, &mut self.erc20)
    }
    fn withdraw(&mut self, v: U256, r: Address, o: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.withdraw(v, r, o, &mut self.erc20)
    }
    fn redeem(&mut self, v: U256, r: Address, o: Address) -> Result<U256, erc4626::Error> {
        self.erc4626.redeem(v, r, o, &mut self.erc20)
    }
}
#[storage]
struct Fm {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    flash: Erc20FlashMint,
}
unsafe impl TopLevelStorage for Fm {}
#[public]
#[inherit(Erc20)]
impl Fm {
    fn mint(&mut self, to: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, v)
    }
    fn burn(&mut self, v: U256) -> Result<(), erc20::Error> {
        self.erc20._burn(stylus_sdk::msg::sender(), v)
    }
    fn max_flash_loan(&self, token: Address) -> U256 {
        self.flash.max_flash_loan(token, &self.erc20)
    }
    fn flash_loan(&mut self, receiver: Address, token: Address, v: U256, data: Bytes) -> Result<bool, flash_mint::Error> {
        self.flash.flash_loan(receiver, token, v, data, &mut self.erc20)
    }
}

/// Slot 0: 1 = tells the first agent before, 2 = after it moved a balance, 3 = both.
pub fn hook_token(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    if input.len() < 4 {
        return Err(vec![]);
    }
    let hook = my_slot(0).to::<u64>();
    let s: [u8; 4] = input[..4].try_into().unwrap();
    let d = &input[4..];
    let ad = |i: usize| Address::from_word(B256::from(word_at(d, i).unwrap_or_default()));
    let nm = |i: usize| word_at(d, i).unwrap_or_default();
    if s == selector("balanceOf(address)") {
        return Ok(enc(&[u(my_get(T_BAL, ad(0), ZERO))]));
    }
    if s == selector("allowance(address,address)") {
        return Ok(enc(&[u(my_get(T_ALLOW, ad(0), ad(1)))]));
    }
    let (f, t, v) = if s == selector("transfer(address,uint256)") {
        (caller(), ad(0), nm(1))
    } else if s == selector("transferFrom(address,address,uint256)") {
        (ad(0), ad(1), nm(2))
    } else {
        return Err(vec![]);
    };
    if hook & 1 != 0 {
        sub_call(ag(1), U256::ZERO, vec![9, 9, 9, 9]);
    }
    let bf = my_get(T_BAL, f, ZERO);
    if bf < v || t.is_zero() {
        return Err(vec![]);
    }
    if s == selector("transferFrom(address,address,uint256)") {
        let al = my_get(T_ALLOW, f, caller());
        if al != U256::MAX {
            if al < v {
                return Err(vec![]);
            }
            my_set(T_ALLOW, f, caller(), al - v);
        }
    }
    my_set(T_BAL, f, ZERO, bf - v);
    let bt = my_get(T_BAL, t, ZERO);
    my_set(T_BAL, t, ZERO, bt + v);
    if hook & 2 != 0 {
        sub_call(ag(1), U256::ZERO, vec![9, 9, 9, 9]);
    }
    Ok(enc(&[b(true)]))
}

#[derive(Clone, Hash)]
pub struct VM {
    a: M20,
    s: M20,
}
#[derive(Clone, Debug)]
enum VC {
    Deposit(u64, Address),
    Mint(u64, Address),
    Withdraw(u64, Address, Address),
    Redeem(u64, Address, Address),
    Transfer(Address, u64),
    TransferFrom(Address, Address, u64),
    Approve(Address, u64),
    /// the agent moves its own assets into the vault
    Donate(u64),
    TotalSupply,
    BalanceOf(Address),
    TotalAssets,
    Convert(u64),
    MaxWithdraw(Address),
}
struct VSys {
    hook: u64,
    vault: bool,
    progs: usize,
    rich: bool,
}
fn fail_op() -> Vec<u8> {
    cd("SafeErc20FailedOperation(address)", &[a(ASSET)])
}
fn md(x: U256, y: U256, d: U256, up: bool) -> U256 {
    let (p, d) = (U512::from(x) * U512::from(y), U512::from(d));
    U256::from(p / d) + U256::from(u64::from(up && !(p % d).is_zero()))
}
impl VSys {
    fn shares(m: &VM, x: U256, up: bool) -> U256 {
        md(x, m.s.supply + n(1), m.a.b(VAULT) + n(1), up)
    }
    fn assets(m: &VM, x: U256, up: bool) -> U256 {
        md(x, m.a.b(VAULT) + n(1), m.s.supply + n(1), up)
    }
    fn tok_move(&self, cx: &mut Cx<VC>, m: &mut VM, f: Address, t: Address, v: U256, from: bool) -> Result<(), Errs> {
        let save = (m.clone(), cx.logs.len());
        if self.hook & 1 != 0 {
            callback(self, cx, m, ag(1));
        }
        let r = if from { m.a.transfer_from(VAULT, f, t, v) } else { m.a.transfer(f, t, v) };
        if r.is_err() {
            // the whole token call is undone
            *m = save.0;
            cx.logs.truncate(save.1);
            return Err(vec![fail_op()]);
        }
        if self.hook & 2 != 0 {
            callback(self, cx, m, ag(1));
        }
        Ok(())
    }
    fn put_in(&self, cx: &mut Cx<VC>, m: &mut VM, by: Address, r: Address, assets: U256, shares: U256) -> Result<(), Errs> {
        self.tok_move(cx, m, by, VAULT, assets, true)?;
        logs(cx, m.s.mint(r, shares))?;
        cx.logs.push(ev(VAULT, "Deposit(address,address,uint256,uint256)", &[a(by), a(r)], &[u(assets), u(shares)]));
        Ok(())
    }
    fn take_out(&self, cx: &mut Cx<VC>, m: &mut VM, by: Address, r: Address, o: Address, assets: U256, shares: U256) -> Result<(), Errs> {
        if by != o {
            logs(cx, m.s.spend(o, by, shares))?;
        }
        logs(cx, m.s.burn(o, shares))?;
        self.tok_move(cx, m, VAULT, r, assets, false)?;
        cx.logs.push(ev(VAULT, "Withdraw(address,address,address,uint256,uint256)", &[a(by), a(r), a(o)], &[u(assets), u(shares)]));
        Ok(())
    }
}
impl Party for VSys {
    type M = VM;
    type C = VC;
    fn start(&self) -> (World, VM) {
        let mut wd = World::default();
        wd.acct(ASSET).code = Code::Native(hook_token);
        wd.set_slot(ASSET, 0, n(self.hook));
        wd.acct(VAULT).code = if self.vault { native!(Vault) } else { native!(Wrap) };
        wd.set_slot(VAULT, 3, U256::from_be_bytes(ASSET.into_word().0));
        for i in 1..=2 {
            wd.acct(ag(i)).code = Code::Native(agent);
        }
        let mut m = VM { a: M20::new(ASSET), s: M20::new(VAULT) };
        for (x, v) in [(addr(1), 7u64), (ag(1), 7), (ag(2), 3)] {
            let _ = m.a.mint(x, n(v));
            host::mock_put(&mut wd, ASSET, T_BAL, x, ZERO, n(v));
            m.a.set_al(x, VAULT, U256::MAX);
            host::mock_put(&mut wd, ASSET, T_ALLOW, x, VAULT, U256::MAX);
        }
        with(|vm| vm.world = wd);
        let mut cx = Cx { prog: Default::default(), logs: vec![], obs: vec![] };
        // some shares, and in the vault a donation, so that prices are not trivial
        for (by, c) in [(addr(1), VC::Deposit(4, addr(1))), (ag(1), VC::Deposit(3, ag(1))), (addr(1), VC::Approve(ag(1), 2))] {
            exec(self, &mut cx, &mut m, by, &c).expect("set-up");
            let (t, d) = self.encode(&c);
            assert!(tx(by, t, U256::ZERO, d).ok, "set-up");
        }
        if self.vault {
            let _ = m.a.mint(VAULT, n(3));
            with(|vm| host::mock_put(&mut vm.world, ASSET, T_BAL, VAULT, ZERO, n(3 + 7)));
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn encode(&self, c: &VC) -> (Address, Vec<u8>) {
        let v = |x: &u64| u(n(*x));
        let d = match c {
            VC::Deposit(x, r) if self.vault => cd("deposit(uint256,address)", &[v(x), a(*r)]),
            VC::Deposit(x, r) => cd("depositFor(address,uint256)", &[a(*r), v(x)]),
            VC::Mint(x, r) if self.vault => cd("mint(uint256,address)", &[v(x), a(*r)]),
            VC::Mint(_, r) => cd("recover(address)", &[a(*r)]),
            VC::Withdraw(x, r, o) if self.vault => cd("withdraw(uint256,address,address)", &[v(x), a(*r), a(*o)]),
            VC::Withdraw(x, r, _) => cd("withdrawTo(address,uint256)", &[a(*r), v(x)]),
            VC::Redeem(x, r, o) => cd("redeem(uint256,address,address)", &[v(x), a(*r), a(*o)]),
            VC::Transfer(t, x) => cd("transfer(address,uint256)", &[a(*t), v(x)]),
            VC::TransferFrom(f, t, x) => cd("transferFrom(address,address,uint256)", &[a(*f), a(*t), v(x)]),
            VC::Approve(t, x) => cd("approve(address,uint256)", &[a(*t), v(x)]),
            VC::Donate(x) => return (ASSET, cd("transfer(address,uint256)", &[a(VAULT), v(x)])),
            VC::TotalSupply => cd("totalSupply()", &[]),
            VC::BalanceOf(x) => cd("balanceOf(address)", &[a(*x)]),
            VC::TotalAssets => cd("totalAssets()", &[]),
            VC::Convert(x) => cd("convertToShares(uint256)", &[v(x)]),
            VC::MaxWithdraw(x) => cd("maxWithdraw(address)", &[a(*x)]),
        };
        (VAULT, d)
    }
    fn body(&self, cx: &mut Cx<VC>, m: &mut VM, by: Address, c: &VC) -> Ret {
        let word = |x: U256| Ok(enc(&[u(x)]));
        match *c {
            VC::Deposit(x, r) if self.vault => {
                let s = Self::shares(m, n(x), false);
                self.put_in(cx, m, by, r, n(x), s)?;
                word(s)
            }
            VC::Deposit(x, r) => {
                self.tok_move(cx, m, by, VAULT, n(x), true)?;
                logs(cx, m.s.mint(r, n(x)))?;
                Ok(ret_true())
            }
            VC::Mint(x, r) if self.vault => {
                let s = Self::assets(m, n(x), true);
                self.put_in(cx, m, by, r, s, n(x))?;
                word(s)
            }
            VC::Mint(_, r) => {
                let Some(v) = m.a.b(VAULT).checked_sub(m.s.supply) else { return Err(vec![]) };
                if !v.is_zero() {
                    logs(cx, m.s.mint(r, v))?;
                }
                word(v)
            }
            VC::Withdraw(x, r, o) if self.vault => {
                let max = Self::assets(m, m.s.b(o), false);
                if n(x) > max {
                    return Err(vec![cd("ERC4626ExceededMaxWithdraw(address,uint256,uint256)", &[a(o), u(n(x)), u(max)])]);
                }
                let s = Self::shares(m, n(x), true);
                self.take_out(cx, m, by, r, o, n(x), s)?;
                word(s)
            }
            VC::Withdraw(x, r, _) => {
                logs(cx, m.s.burn(by, n(x)))?;
                self.tok_move(cx, m, VAULT, r, n(x), false)?;
                Ok(ret_true())
            }
            VC::Redeem(x, r, o) => {
                let max = m.s.b(o);
                if n(x) > max {
                    return Err(vec![cd("ERC4626ExceededMaxRedeem(address,uint256,uint256)", &[a(o), u(n(x)), u(max)])]);
                }
                let s = Self::assets(m, n(x), false);
                self.take_out(cx, m, by, r, o, s, n(x))?;
                word(s)
            }
            VC::Transfer(t, x) => {
                logs(cx, m.s.transfer(by, t, n(x)))?;
                Ok(ret_true())
            }
            VC::TransferFrom(f, t, x) => {
                logs(cx, m.s.transfer_from(by, f, t, n(x)))?;
                Ok(ret_true())
            }
            VC::Approve(t, x) => {
                logs(cx, m.s.approve(by, t, n(x)))?;
                Ok(ret_true())
            }
            VC::Donate(x) => {
                self.tok_move(cx, m, by, VAULT, n(x), false).map_err(|_| vec![])?;
                Ok(ret_true())
            }
            VC::TotalSupply => word(m.s.supply),
            VC::BalanceOf(x) => word(m.s.b(x)),
            VC::TotalAssets => word(m.a.b(VAULT)),
            VC::Convert(x) => word(Self::shares(m, n(x), false)),
            VC::MaxWithdraw(x) => word(Self::assets(m, m.s.b(x), false)),
        }
    }
    fn outer(&self) -> Vec<(Address, VC)> {
        let (e, g) = (addr(1), ag(1));
        let mut v = vec![];
        for (x, r) in [(e, e), (g, g), (e, g)] {
            v.push((x, VC::Deposit(2, r)));
            if self.vault {
                v.push((x, VC::Mint(1, r)));
            }
            v.push((x, VC::Withdraw(2, r, x)));
            if self.vault {
                v.push((x, VC::Redeem(1, r, x)));
            }
        }
        if self.vault {
            v.push((g, VC::Redeem(1, g, e)));
            v.push((g, VC::Withdraw(2, g, e)));
        }
        v.push((ag(2), VC::Deposit(3, ag(2))));
        if self.rich {
            v.push((e, VC::Withdraw(3, e, e)));
            v.push((e, VC::Deposit(5, e)));
            v.push((e, VC::Donate(1)));
        }
        v
    }
    fn inner(&self) -> Vec<VC> {
        let (e, g) = (addr(1), ag(1));
        let mut v = vec![
            VC::Deposit(2, g),
            VC::Withdraw(2, g, g),
            VC::Withdraw(3, g, g),
            VC::Transfer(e, 1),
            VC::TransferFrom(e, g, 2),
            VC::Approve(e, 3),
            VC::Donate(1),
            VC::TotalSupply,
            VC::BalanceOf(e),
        ];
        if self.vault {
            v.extend([VC::Mint(2, g), VC::Redeem(2, g, g), VC::Redeem(1, g, e), VC::Deposit(1, e), VC::TotalAssets, VC::Convert(6), VC::MaxWithdraw(e)]);
        } else {
            v.extend([VC::Deposit(1, e), VC::Withdraw(1, e, g)]);
        }
        v
    }
    fn views(&self, m: &VM) -> Result<(), String> {
        m.s.check_views(&[addr(1), ag(1), ag(2), VAULT])?;
        for x in [addr(1), ag(1), ag(2), VAULT] {
            must_view("asset balance", x, ASSET, cd("balanceOf(address)", &[a(x)]), &enc(&[u(m.a.b(x))]))?;
        }
        if !self.vault && m.s.supply > m.a.b(VAULT) {
            return Err("wrapped supply exceeds the underlying holdings".into());
        }
        Ok(())
    }
    fn max_prog(&self) -> usize {
        self.progs
    }
}

// ------------------------------------------------------------- flash mint
#[derive(Clone, Debug)]
enum FC {
    Loan(Address, u64),
    Transfer(Address, u64),
    TransferFrom(Address, Address, u64),
    Approve(Address, u64),
    Burn(u64),
    Mint(Address, u64),
    TotalSupply,
    MaxLoan,
}
struct FSys {
    fee: u64,
    fee_to: Address,
    progs: usize,
    /// allowance the agents gave to the lender beforehand
    given: u64,
}
const LEND: Address = Address::new([0x81; 20]);
impl Party for FSys {
    type M = M20;
    type C = FC;
    fn start(&self) -> (World, M20) {
        let mut wd = World::default();
        wd.acct(LEND).code = native!(Fm);
        wd.set_slot(LEND, 3, n(self.fee));
        wd.set_slot(LEND, 4, U256::from_be_bytes(self.fee_to.into_word().0));
        for i in 1..=2 {
            wd.acct(ag(i)).code = Code::Native(agent);
        }
        with(|vm| vm.world = wd);
        let mut m = M20::new(LEND);
        for (by, c) in [(ag(1), FC::Mint(ag(1), 3)), (ag(2), FC::Mint(ag(2), 2)), (ag(1), FC::Approve(LEND, self.given)), (ag(2), FC::Approve(LEND, self.given)), (ag(2), FC::Approve(ag(1), 2))] {
            let mut cx = Cx { prog: Default::default(), logs: vec![], obs: vec![] };
            exec(self, &mut cx, &mut m, by, &c).expect("set-up");
            assert!(tx(by, LEND, U256::ZERO, self.encode(&c).1).ok);
        }
        (with(|vm| vm.world.clone()), m)
    }
    fn encode(&self, c: &FC) -> (Address, Vec<u8>) {
        let v = |x: &u64| u(n(*x));
        let d = match c {
            FC::Loan(t, x) => cd("flashLoan(address,address,uint256,bytes)", &[a(*t), a(LEND), v(x), bytes(b"")]),
            FC::Transfer(t, x) => cd("transfer(address,uint256)", &[a(*t), v(x)]),
            FC::TransferFrom(f, t, x) => cd("transferFrom(address,address,uint256)", &[a(*f), a(*t), v(x)]),
            FC::Approve(t, x) => cd("approve(address,uint256)", &[a(*t), v(x)]),
            FC::Burn(x) => cd("burn(uint256)", &[v(x)]),
            FC::Mint(t, x) => cd("mint(address,uint256)", &[a(*t), v(x)]),
            FC::TotalSupply => cd("totalSupply()", &[]),
            FC::MaxLoan => cd("maxFlashLoan(address)", &[a(LEND)]),
        };
        (LEND, d)
    }
    fn body(&self, cx: &mut Cx<FC>, m: &mut M20, by: Address, c: &FC) -> Ret {
        match *c {
            FC::Loan(t, x) => {
                logs(cx, m.mint(t, n(x)))?;
                callback(self, cx, m, t);
                let due = n(x + self.fee);
                logs(cx, m.spend(t, LEND, due))?;
                if self.fee == 0 || self.fee_to.is_zero() {
                    logs(cx, m.burn(t, due))?;
                } else {
                    logs(cx, m.burn(t, n(x)))?;
                    logs(cx, m.transfer(t, self.fee_to, n(self.fee)))?;
                }
                Ok(ret_true())
            }
            FC::Transfer(t, x) => logs(cx, m.transfer(by, t, n(x))).map(|_| ret_true()),
            FC::TransferFrom(f, t, x) => logs(cx, m.transfer_from(by, f, t, n(x))).map(|_| ret_true()),
            FC::Approve(t, x) => logs(cx, m.approve(by, t, n(x))).map(|_| ret_true()),
            FC::Burn(x) => logs(cx, m.burn(by, n(x))).map(|_| vec![]),
            FC::Mint(t, x) => logs(cx, m.mint(t, n(x))).map(|_| vec![]),
            FC::TotalSupply => Ok(enc(&[u(m.supply)])),
            FC::MaxLoan => Ok(enc(&[u(U256::MAX - m.supply)])),
        }
    }
    fn outer(&self) -> Vec<(Address, FC)> {
        let mut v = vec![];
        for (by, t) in [(addr(1), ag(1)), (ag(1), ag(1)), (ag(1), ag(2))] {
            for x in [0, 1, 4] {
                v.push((by, FC::Loan(t, x)));
            }
        }
        v
    }
    fn inner(&self) -> Vec<FC> {
        vec![
            FC::Loan(ag(1), 2),
            FC::Loan(ag(2), 1),
            FC::Transfer(ag(1), 1),
            FC::Transfer(ag(2), 3),
            FC::TransferFrom(ag(2), ag(1), 2),
            FC::Approve(LEND, 4),
            FC::Approve(LEND, 9),
            FC::Approve(LEND, 0),
            FC::Burn(1),
            FC::Burn(2),
            FC::Mint(ag(1), 2),
            FC::TotalSupply,
            FC::MaxLoan,
        ]
    }
    fn views(&self, m: &M20) -> Result<(), String> {
        m.check_views(&[addr(1), ag(1), ag(2), LEND, addr(8)])
    }
    fn max_prog(&self) -> usize {
        self.progs
    }
}

pub fn run(ck: &mut Check) {
    let t = ck.thorough();
    for vault in [true, false] {
        let name = if vault { "ERC-4626 vault" } else { "ERC-20 wrapper" };
        for hook in 1..=3u64 {
            let pos = ["", "before", "after", "before and after"][hook as usize];
            let bounds = "1 account, 2 agents; every operation with every program of inner operations run in the token's callbacks";
            ck.run(
                &format!("{name}, token calls back {pos} moving, one inner operation"),
                bounds,
                &Re(VSys { hook, vault, progs: 1, rich: t }),
                if t { 4 } else { 2 },
            );
            ck.run(&format!("{name}, token calls back {pos} moving, two inner operations"), bounds, &Re(VSys { hook, vault, progs: 2, rich: true }), if t { 2 } else { 1 });
        }
    }
    for (fee, fee_to, given) in [(0, ZERO, 9), (1, ZERO, 5), (1, addr(8), 5), (1, ag(1), 3)] {
        ck.run(
            &format!("flash loan, fee {fee} to {fee_to}, allowance {given}"),
            "two borrowers; loans of 0, 1, 4; every program of two operations run in the borrower's callbacks",
            &Re(FSys { fee, fee_to, progs: 2, given }),
            if t { 3 } else { 2 },
        );
    }
}
