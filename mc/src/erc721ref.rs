//! Reference ERC-721 (three maps), with the documented errors and events.
use crate::abi::*;
use crate::engine::*;
use crate::erc20ref::Step;
use crate::mockrecv;
use crate::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};

const ZERO: Address = Address::ZERO;

#[derive(Clone, Hash, Debug, PartialEq, Eq)]
pub struct M721 {
    pub token: Address,
    pub owner: BTreeMap<U256, Address>,
    pub appr: BTreeMap<U256, Address>,
    pub ops: BTreeSet<(Address, Address)>,
}

pub fn e_owner(x: Address) -> Vec<u8> {
    cd("ERC721InvalidOwner(address)", &[a(x)])
}
pub fn e_missing(id: U256) -> Vec<u8> {
    cd("ERC721NonexistentToken(uint256)", &[u(id)])
}
pub fn e_incorrect(from: Address, id: U256, owner: Address) -> Vec<u8> {
    cd("ERC721IncorrectOwner(address,uint256,address)", &[a(from), u(id), a(owner)])
}
pub fn e_isender(x: Address) -> Vec<u8> {
    cd("ERC721InvalidSender(address)", &[a(x)])
}
pub fn e_ireceiver(x: Address) -> Vec<u8> {
    cd("ERC721InvalidReceiver(address)", &[a(x)])
}
pub fn e_approval(x: Address, id: U256) -> Vec<u8> {
    cd("ERC721InsufficientApproval(address,uint256)", &[a(x), u(id)])
}
pub fn e_iapprover(x: Address) -> Vec<u8> {
    cd("ERC721InvalidApprover(address)", &[a(x)])
}
pub fn e_ioperator(x: Address) -> Vec<u8> {
    cd("ERC721InvalidOperator(address)", &[a(x)])
}
pub fn ev_move(t: Address, from: Address, to: Address, id: U256) -> Log {
    ev(t, "Transfer(address,address,uint256)", &[a(from), a(to), u(id)], &[])
}
pub fn ev_appr(t: Address, o: Address, s: Address, id: U256) -> Log {
    ev(t, "Approval(address,address,uint256)", &[a(o), a(s), u(id)], &[])
}
pub fn ev_all(t: Address, o: Address, s: Address, v: bool) -> Log {
    ev(t, "ApprovalForAll(address,address,bool)", &[a(o), a(s)], &[b(v)])
}

impl M721 {
    pub fn new(token: Address) -> Self {
        M721 { token, owner: BTreeMap::new(), appr: BTreeMap::new(), ops: BTreeSet::new() }
    }
    pub fn o(&self, id: U256) -> Option<Address> {
        self.owner.get(&id).copied()
    }
    pub fn count(&self, x: Address) -> u64 {
        self.owner.values().filter(|o| **o == x).count() as u64
    }
    pub fn authorised(&self, by: Address, id: U256) -> bool {
        match self.o(id) {
            None => false,
            Some(o) => o == by || self.ops.contains(&(o, by)) || self.appr.get(&id) == Some(&by),
        }
    }
    fn put(&mut self, to: Address, id: U256) -> Log {
        let from = self.o(id).unwrap_or(ZERO);
        self.appr.remove(&id);
        if to.is_zero() {
            self.owner.remove(&id);
        } else {
            self.owner.insert(id, to);
        }
        ev_move(self.token, from, to, id)
    }
    pub fn mint(&mut self, to: Address, id: U256) -> Step {
        let mut e = vec![];
        if to.is_zero() {
            e.push(e_ireceiver(ZERO));
        }
        if self.o(id).is_some() {
            e.push(e_isender(ZERO));
        }
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![self.put(to, id)])
    }
    pub fn burn(&mut self, id: U256) -> Step {
        if self.o(id).is_none() {
            return Err(vec![e_missing(id)]);
        }
        Ok(vec![self.put(ZERO, id)])
    }
    /// burn with an authority check (the burnable extension)
    pub fn burn_by(&mut self, by: Address, id: U256) -> Step {
        if self.o(id).is_none() {
            return Err(vec![e_missing(id)]);
        }
        if !self.authorised(by, id) {
            return Err(vec![e_approval(by, id)]);
        }
        Ok(vec![self.put(ZERO, id)])
    }
    pub fn transfer(&mut self, from: Address, to: Address, id: U256) -> Step {
        let mut e = vec![];
        if to.is_zero() {
            e.push(e_ireceiver(ZERO));
        }
        match self.o(id) {
            None => e.push(e_missing(id)),
            Some(o) if o != from => e.push(e_incorrect(from, id, o)),
            _ => (),
        }
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![self.put(to, id)])
    }
    pub fn transfer_from(&mut self, by: Address, from: Address, to: Address, id: U256) -> Step {
        let mut e = vec![];
        if to.is_zero() {
            e.push(e_ireceiver(ZERO));
        }
        match self.o(id) {
            None => e.push(e_missing(id)),
            Some(o) => {
                if !self.authorised(by, id) {
                    e.push(e_approval(by, id));
                }
                if o != from {
                    e.push(e_incorrect(from, id, o));
                }
            }
        }
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![self.put(to, id)])
    }
    pub fn approve(&mut self, by: Address, to: Address, id: U256) -> Step {
        let Some(o) = self.o(id) else { return Err(vec![e_missing(id)]) };
        if o != by && !self.ops.contains(&(o, by)) {
            return Err(vec![e_iapprover(by)]);
        }
        if to.is_zero() {
            self.appr.remove(&id);
        } else {
            self.appr.insert(id, to);
        }
        Ok(vec![ev_appr(self.token, o, to, id)])
    }
    pub fn set_all(&mut self, by: Address, op: Address, v: bool) -> Step {
        if op.is_zero() {
            return Err(vec![e_ioperator(ZERO)]);
        }
        if v {
            self.ops.insert((by, op));
        } else {
            self.ops.remove(&(by, op));
        }
        Ok(vec![ev_all(self.token, by, op, v)])
    }
    /// Adds the receiver's answer to a move that itself succeeded in the model.
    pub fn accept(&mut self, r: Step, before: &M721, to: Address, selfcode: bool) -> Step {
        let l = r?;
        if let Some(rej) = mockrecv::rejects(to, mockrecv::S721) {
            *self = before.clone();
            return Err(vec![rej.unwrap_or_else(|| e_ireceiver(to))]);
        }
        if selfcode && to == self.token {
            *self = before.clone();
            return Err(vec![e_ireceiver(to)]);
        }
        Ok(l)
    }
    /// All views of the standard over `who` and `ids`.
    pub fn check_views(&self, who: &[Address], ids: &[U256]) -> Result<(), String> {
        let t = self.token;
        let q = who[0];
        for x in who {
            let d = cd("balanceOf(address)", &[a(*x)]);
            if x.is_zero() {
                must_fail_view("balanceOf(0)", q, t, d, &[e_owner(ZERO)])?;
            } else {
                must_view(&format!("balanceOf({x})"), q, t, d, &enc(&[w(self.count(*x))]))?;
            }
        }
        for id in ids {
            let d = cd("ownerOf(uint256)", &[u(*id)]);
            let g = cd("getApproved(uint256)", &[u(*id)]);
            match self.o(*id) {
                None => {
                    must_fail_view(&format!("ownerOf({id})"), q, t, d, &[e_missing(*id)])?;
                    must_fail_view(&format!("getApproved({id})"), q, t, g, &[e_missing(*id)])?;
                }
                Some(o) => {
                    must_view(&format!("ownerOf({id})"), q, t, d, &enc(&[a(o)]))?;
                    let ap = self.appr.get(id).copied().unwrap_or(ZERO);
                    must_view(&format!("getApproved({id})"), q, t, g, &enc(&[a(ap)]))?;
                }
            }
        }
        for x in who {
            for y in who {
                let v = self.ops.contains(&(*x, *y));
                must_view("isApprovedForAll", q, t, cd("isApprovedForAll(address,address)", &[a(*x), a(*y)]), &enc(&[b(v)]))?;
            }
        }
        Ok(())
    }
}

/// Checks the callback made during the last transaction: exactly one call
/// from `token` to `to` with exactly `data`, and none to anybody else that
/// has code.
pub fn check_callback(token: Address, to: Address, expected: Option<Vec<u8>>) -> Result<(), String> {
    let calls = with(|vm| vm.calls.clone());
    let got: Vec<_> = calls.iter().filter(|c| c.from == token).collect();
    match expected {
        None => {
            if !got.is_empty() {
                return Err(format!("unexpected external call to {} with {}", got[0].to, show(&got[0].data)));
            }
        }
        Some(d) => {
            if got.len() != 1 {
                return Err(format!("{} external calls instead of the one receiver callback", got.len()));
            }
            let c = got[0];
            if c.to != to || c.data != d || c.is_static || !c.value.is_zero() {
                return Err(format!("receiver callback {} to {} instead of {} to {}", show(&c.data), c.to, show(&d), to));
            }
        }
    }
    Ok(())
}

/// How often the known finding about identifier 0 was met.
pub static ID0: AtomicU64 = AtomicU64::new(0);
/// Both enumerations of the contract equal the model's sets.
pub fn check_enum(m: &M721, who: &[Address], q: Address) -> Result<(), String> {
    let t = m.token;
    let n = |v: u64| U256::from(v);
    let total = m.owner.len() as u64;
    must_view("totalSupply", q, t, cd("totalSupply()", &[]), &enc(&[w(total)]))?;
    let oob = |o: Address, i: U256| cd("ERC721OutOfBoundsIndex(address,uint256)", &[a(o), u(i)]);
    let mut got = BTreeSet::new();
    for i in 0..total {
        let out = host::view(q, t, cd("tokenByIndex(uint256)", &[w(i)]));
        if !out.ok || out.data.len() != 32 {
            return Err(format!("tokenByIndex({i}) of {total} failed with {}", show(&out.data)));
        }
        got.insert(word_at(&out.data, 0).unwrap());
    }
    let want: BTreeSet<U256> = m.owner.keys().copied().collect();
    if got != want {
        return Err(format!("all-token enumeration is {got:?} instead of {want:?}"));
    }
    for i in [n(total), n(total + 1), n(total + 7), U256::MAX] {
        must_fail_view(&format!("tokenByIndex({i})"), q, t, cd("tokenByIndex(uint256)", &[u(i)]), &[oob(ZERO, i)])?;
    }
    for o in who {
        let k = m.count(*o);
        let mut got = BTreeSet::new();
        let mut missing = 0;
        for i in 0..k {
            let out = host::view(q, t, cd("tokenOfOwnerByIndex(address,uint256)", &[a(*o), w(i)]));
            if !out.ok {
                // known finding: identifier 0 is reported as out of bounds
                if out.data == oob(*o, n(i)) && m.o(U256::ZERO) == Some(*o) && missing == 0 {
                    missing += 1;
                    got.insert(U256::ZERO);
                    ID0.fetch_add(1, Ordering::Relaxed);
                    continue;
                }
                return Err(format!("tokenOfOwnerByIndex({o},{i}) of {k} failed with {}", show(&out.data)));
            }
            got.insert(word_at(&out.data, 0).unwrap());
        }
        let want: BTreeSet<U256> = m.owner.iter().filter(|x| x.1 == o).map(|x| *x.0).collect();
        if got != want {
            return Err(format!("enumeration of {o} is {got:?} instead of {want:?}"));
        }
        for i in [n(k), n(k + 1), n(k + 5), U256::MAX] {
            must_fail_view(&format!("tokenOfOwnerByIndex({o},{i})"), q, t, cd("tokenOfOwnerByIndex(address,uint256)", &[a(*o), u(i)]), &[oob(*o, i)])?;
        }
    }
    Ok(())
}
