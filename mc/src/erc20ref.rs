//! Reference ERC-20 (maps and a number), with the documented errors/events.
use crate::abi::*;
use crate::engine::*;
use crate::*;
use std::collections::BTreeMap;

#[derive(Clone, Hash, Debug, PartialEq, Eq)]
pub struct M20 {
    pub token: Address,
    pub bal: BTreeMap<Address, U256>,
    pub allow: BTreeMap<(Address, Address), U256>,
    pub supply: U256,
}

pub type Errs = Vec<Vec<u8>>;

pub fn e_balance(who: Address, bal: U256, need: U256) -> Vec<u8> {
    cd("ERC20InsufficientBalance(address,uint256,uint256)", &[a(who), u(bal), u(need)])
}
pub fn e_sender(who: Address) -> Vec<u8> {
    cd("ERC20InvalidSender(address)", &[a(who)])
}
pub fn e_receiver(who: Address) -> Vec<u8> {
    cd("ERC20InvalidReceiver(address)", &[a(who)])
}
pub fn e_allowance(who: Address, have: U256, need: U256) -> Vec<u8> {
    cd("ERC20InsufficientAllowance(address,uint256,uint256)", &[a(who), u(have), u(need)])
}
pub fn e_spender(who: Address) -> Vec<u8> {
    cd("ERC20InvalidSpender(address)", &[a(who)])
}
pub fn e_approver(who: Address) -> Vec<u8> {
    cd("ERC20InvalidApprover(address)", &[a(who)])
}
pub fn ev_transfer(t: Address, from: Address, to: Address, v: U256) -> Log {
    ev(t, "Transfer(address,address,uint256)", &[a(from), a(to)], &[u(v)])
}
pub fn ev_approval(t: Address, o: Address, s: Address, v: U256) -> Log {
    ev(t, "Approval(address,address,uint256)", &[a(o), a(s)], &[u(v)])
}

/// Outcome of a model step: events, or the set of acceptable errors.
/// An empty error list means: fails, payload not documented (panic).
pub type Step = Result<Vec<Log>, Errs>;

pub fn expect(r: &Step, ret: Vec<u8>) -> Expect {
    match r {
        Ok(l) => Expect::Ok(ret, l.clone()),
        Err(e) if e.is_empty() => Expect::Fail,
        Err(e) => Expect::Err(e.clone()),
    }
}
pub fn ret_true() -> Vec<u8> {
    enc(&[b(true)])
}

impl M20 {
    pub fn new(token: Address) -> Self {
        M20 { token, bal: BTreeMap::new(), allow: BTreeMap::new(), supply: U256::ZERO }
    }
    pub fn b(&self, x: Address) -> U256 {
        self.bal.get(&x).copied().unwrap_or_default()
    }
    pub fn al(&self, o: Address, s: Address) -> U256 {
        self.allow.get(&(o, s)).copied().unwrap_or_default()
    }
    pub fn set_b(&mut self, x: Address, v: U256) {
        if v.is_zero() {
            self.bal.remove(&x);
        } else {
            self.bal.insert(x, v);
        }
    }
    pub fn set_al(&mut self, o: Address, s: Address, v: U256) {
        if v.is_zero() {
            self.allow.remove(&(o, s));
        } else {
            self.allow.insert((o, s), v);
        }
    }
    pub fn mint(&mut self, to: Address, v: U256) -> Step {
        if to.is_zero() {
            return Err(vec![e_receiver(to)]);
        }
        let Some(s) = self.supply.checked_add(v) else { return Err(vec![]) };
        self.supply = s;
        let n = self.b(to) + v;
        self.set_b(to, n);
        Ok(vec![ev_transfer(self.token, Address::ZERO, to, v)])
    }
    pub fn burn(&mut self, who: Address, v: U256) -> Step {
        let mut e = vec![];
        if who.is_zero() {
            e.push(e_sender(who));
        } else if self.b(who) < v {
            e.push(e_balance(who, self.b(who), v));
        }
        if !e.is_empty() {
            return Err(e);
        }
        self.supply -= v;
        let n = self.b(who) - v;
        self.set_b(who, n);
        Ok(vec![ev_transfer(self.token, who, Address::ZERO, v)])
    }
    pub fn transfer(&mut self, from: Address, to: Address, v: U256) -> Step {
        let mut e = vec![];
        if from.is_zero() {
            e.push(e_sender(from));
        }
        if to.is_zero() {
            e.push(e_receiver(to));
        }
        if !from.is_zero() && self.b(from) < v {
            e.push(e_balance(from, self.b(from), v));
        }
        if !e.is_empty() {
            return Err(e);
        }
        let n = self.b(from) - v;
        self.set_b(from, n);
        let n = self.b(to) + v;
        self.set_b(to, n);
        Ok(vec![ev_transfer(self.token, from, to, v)])
    }
    pub fn approve(&mut self, o: Address, s: Address, v: U256) -> Step {
        let mut e = vec![];
        if o.is_zero() {
            e.push(e_approver(o));
        }
        if s.is_zero() {
            e.push(e_spender(s));
        }
        if !e.is_empty() {
            return Err(e);
        }
        self.set_al(o, s, v);
        Ok(vec![ev_approval(self.token, o, s, v)])
    }
    pub fn spend(&mut self, o: Address, s: Address, v: U256) -> Step {
        let cur = self.al(o, s);
        let mut e = vec![];
        if cur != U256::MAX {
            if cur < v {
                e.push(e_allowance(s, cur, v));
            }
            if o.is_zero() {
                e.push(e_approver(o));
            }
            if s.is_zero() {
                e.push(e_spender(s));
            }
        }
        if !e.is_empty() {
            return Err(e);
        }
        if cur != U256::MAX {
            self.set_al(o, s, cur - v);
        }
        Ok(vec![])
    }
    /// spends the caller's allowance, then moves; atomic; all violated
    /// preconditions are acceptable reasons.
    pub fn transfer_from(&mut self, by: Address, from: Address, to: Address, v: U256) -> Step {
        let save = self.clone();
        let r1 = self.spend(from, by, v);
        let r2 = self.transfer(from, to, v);
        match (r1, r2) {
            (Ok(mut x), Ok(y)) => {
                x.extend(y);
                Ok(x)
            }
            (r1, r2) => {
                *self = save;
                Err(merge(r1, r2))
            }
        }
    }
    pub fn burn_from(&mut self, by: Address, from: Address, v: U256) -> Step {
        let save = self.clone();
        let r1 = self.spend(from, by, v);
        let r2 = self.burn(from, v);
        match (r1, r2) {
            (Ok(mut x), Ok(y)) => {
                x.extend(y);
                Ok(x)
            }
            (r1, r2) => {
                *self = save;
                Err(merge(r1, r2))
            }
        }
    }
    /// All ERC-20 views over `who`, compared with the real contract.
    pub fn check_views(&self, who: &[Address]) -> Result<(), String> {
        let t = self.token;
        let q = who[0];
        must_view("totalSupply()", q, t, cd("totalSupply()", &[]), &enc(&[u(self.supply)]))?;
        let mut sum = U256::ZERO;
        for x in who {
            must_view("balanceOf", q, t, cd("balanceOf(address)", &[a(*x)]), &enc(&[u(self.b(*x))]))?;
        }
        for v in self.bal.values() {
            sum += *v;
        }
        if sum != self.supply {
            return Err("model: balances do not sum to the supply".into());
        }
        for x in who {
            for y in who {
                must_view("allowance", q, t, cd("allowance(address,address)", &[a(*x), a(*y)]), &enc(&[u(self.al(*x, *y))]))?;
            }
        }
        Ok(())
    }
}

pub fn merge(a: Step, b: Step) -> Errs {
    // a documented error set, or undocumented (panic) if either is a panic
    let mut e = vec![];
    for r in [a, b] {
        if let Err(x) = r {
            if x.is_empty() {
                return vec![];
            }
            e.extend(x);
        }
    }
    e
}
