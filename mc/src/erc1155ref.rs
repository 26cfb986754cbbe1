//! Reference ERC-1155 (one map of balances, one set of operators).
use crate::abi::*;
use crate::engine::*;
use crate::erc20ref::Step;
use crate::mockrecv;
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

const ZERO: Address = Address::ZERO;

#[derive(Clone, Hash, Debug, PartialEq, Eq)]
pub struct M1155 {
    pub token: Address,
    /// supply tracking: sums may not overflow
    pub supply: bool,
    pub bal: BTreeMap<(U256, Address), U256>,
    pub ops: BTreeSet<(Address, Address)>,
}
pub fn e_bal(x: Address, bal: U256, need: U256, id: U256) -> Vec<u8> {
    cd("ERC1155InsufficientBalance(address,uint256,uint256,uint256)", &[a(x), u(bal), u(need), u(id)])
}
pub fn e_snd(x: Address) -> Vec<u8> {
    cd("ERC1155InvalidSender(address)", &[a(x)])
}
pub fn e_rcv(x: Address) -> Vec<u8> {
    cd("ERC1155InvalidReceiver(address)", &[a(x)])
}
pub fn e_missing_all(op: Address, owner: Address) -> Vec<u8> {
    cd("ERC1155MissingApprovalForAll(address,address)", &[a(op), a(owner)])
}
pub fn e_operator(x: Address) -> Vec<u8> {
    cd("ERC1155InvalidOperator(address)", &[a(x)])
}
pub fn e_len(ids: usize, vals: usize) -> Vec<u8> {
    cd("ERC1155InvalidArrayLength(uint256,uint256)", &[w(ids as u64), w(vals as u64)])
}

impl M1155 {
    pub fn new(token: Address, supply: bool) -> Self {
        M1155 { token, supply, bal: BTreeMap::new(), ops: BTreeSet::new() }
    }
    pub fn b(&self, id: U256, x: Address) -> U256 {
        self.bal.get(&(id, x)).copied().unwrap_or_default()
    }
    fn set(&mut self, id: U256, x: Address, v: U256) {
        if v.is_zero() {
            self.bal.remove(&(id, x));
        } else {
            self.bal.insert((id, x), v);
        }
    }
    /// sum over all accounts, None if it exceeds 256 bits
    pub fn total(&self, id: U256) -> Option<U256> {
        self.bal.iter().filter(|x| x.0 .0 == id).try_fold(U256::ZERO, |s, x| s.checked_add(*x.1))
    }
    pub fn total_all(&self) -> Option<U256> {
        self.bal.values().try_fold(U256::ZERO, |s, x| s.checked_add(*x))
    }
    /// Moves all entries (from/to zero: mint/burn) or none.
    fn mv(&mut self, by: Address, from: Address, to: Address, ids: &[U256], vals: &[U256]) -> Step {
        if ids.len() != vals.len() {
            return Err(vec![e_len(ids.len(), vals.len())]);
        }
        let mut t = self.clone();
        for (id, v) in ids.iter().zip(vals) {
            if !from.is_zero() {
                let bal = t.b(*id, from);
                if bal < *v {
                    return Err(vec![e_bal(from, bal, *v, *id)]);
                }
                t.set(*id, from, bal - *v);
            }
            if !to.is_zero() {
                let Some(x) = t.b(*id, to).checked_add(*v) else { return Err(vec![]) };
                t.set(*id, to, x);
            }
            if t.supply && t.total_all().is_none() {
                return Err(vec![]);
            }
        }
        *self = t;
        let idx = [a(by), a(from), a(to)];
        Ok(vec![if ids.len() == 1 {
            ev(self.token, "TransferSingle(address,address,address,uint256,uint256)", &idx, &[u(ids[0]), u(vals[0])])
        } else {
            ev(self.token, "TransferBatch(address,address,address,uint256[],uint256[])", &idx, &[us(ids), us(vals)])
        }])
    }
    fn also(mut e: Vec<Vec<u8>>, r: Step, save: M1155, me: &mut M1155) -> Step {
        if e.is_empty() {
            return r;
        }
        *me = save;
        match r {
            Err(x) if x.is_empty() => return Err(vec![]),
            Err(x) => e.extend(x),
            Ok(_) => (),
        }
        Err(e)
    }
    pub fn mint(&mut self, by: Address, to: Address, ids: &[U256], vals: &[U256]) -> Step {
        let save = self.clone();
        let mut e = vec![];
        if to.is_zero() {
            e.push(e_rcv(ZERO));
        }
        let r = self.mv(by, ZERO, to, ids, vals);
        if !e.is_empty() {
            // nothing is credited to the zero address
            *self = save;
            if ids.len() != vals.len() {
                e.push(e_len(ids.len(), vals.len()));
            }
            return Err(e);
        }
        r
    }
    pub fn burn(&mut self, by: Address, from: Address, ids: &[U256], vals: &[U256], authorise: bool) -> Step {
        let save = self.clone();
        let mut e = vec![];
        if authorise && from != by && !self.ops.contains(&(from, by)) {
            e.push(e_missing_all(by, from));
        }
        if from.is_zero() {
            e.push(e_snd(ZERO));
            return Err(e);
        }
        let r = self.mv(by, from, ZERO, ids, vals);
        Self::also(e, r, save, self)
    }
    pub fn transfer(&mut self, by: Address, from: Address, to: Address, ids: &[U256], vals: &[U256]) -> Step {
        let save = self.clone();
        let mut e = vec![];
        if from != by && !self.ops.contains(&(from, by)) {
            e.push(e_missing_all(by, from));
        }
        if to.is_zero() {
            e.push(e_rcv(ZERO));
        }
        if from.is_zero() {
            e.push(e_snd(ZERO));
        }
        if from.is_zero() || to.is_zero() {
            return Err(e);
        }
        let r = self.mv(by, from, to, ids, vals);
        Self::also(e, r, save, self)
    }
    pub fn set_all(&mut self, by: Address, op: Address, v: bool) -> Step {
        if op.is_zero() {
            return Err(vec![e_operator(ZERO)]);
        }
        if v {
            self.ops.insert((by, op));
        } else {
            self.ops.remove(&(by, op));
        }
        Ok(vec![ev(self.token, "ApprovalForAll(address,address,bool)", &[a(by), a(op)], &[b(v)])])
    }
    pub fn accept(&mut self, r: Step, before: &M1155, to: Address, single: bool) -> Step {
        let l = r?;
        let cb = if single { mockrecv::S1155 } else { mockrecv::S1155B };
        if let Some(rej) = mockrecv::rejects(to, cb) {
            *self = before.clone();
            return Err(vec![rej.unwrap_or_else(|| e_rcv(to))]);
        }
        if to == self.token {
            *self = before.clone();
            return Err(vec![e_rcv(to)]);
        }
        Ok(l)
    }
    pub fn check_views(&self, who: &[Address], ids: &[U256]) -> Result<(), String> {
        let (t, q) = (self.token, who[0]);
        let (mut accs, mut idl, mut vals) = (vec![], vec![], vec![]);
        for x in who {
            for id in ids {
                must_view(&format!("balanceOf({x},{id})"), q, t, cd("balanceOf(address,uint256)", &[a(*x), u(*id)]), &enc(&[u(self.b(*id, *x))]))?;
                accs.push(*x);
                idl.push(*id);
                vals.push(self.b(*id, *x));
            }
            for y in who {
                must_view("isApprovedForAll", q, t, cd("isApprovedForAll(address,address)", &[a(*x), a(*y)]), &enc(&[b(self.ops.contains(&(*x, *y)))]))?;
            }
        }
        let sig = "balanceOfBatch(address[],uint256[])";
        // all pairs at once, none, and mismatched lengths
        must_view("balanceOfBatch", q, t, cd(sig, &[addrs(&accs), us(&idl)]), &enc(&[us(&vals)]))?;
        must_view("balanceOfBatch(empty)", q, t, cd(sig, &[addrs(&[]), us(&[])]), &enc(&[us(&[])]))?;
        must_fail_view("balanceOfBatch(mismatch)", q, t, cd(sig, &[addrs(&accs[1..]), us(&idl)]), &[e_len(idl.len(), accs.len() - 1)])?;
        must_fail_view("balanceOfBatch(mismatch)", q, t, cd(sig, &[addrs(&accs), us(&idl[..1])]), &[e_len(1, accs.len())])?;
        if self.supply {
            let mut all = U256::ZERO;
            for id in ids {
                let s = self.total(*id).expect("model supply");
                all += s;
                must_view(&format!("totalSupply({id})"), q, t, cd("totalSupply(uint256)", &[u(*id)]), &enc(&[u(s)]))?;
                must_view(&format!("exists({id})"), q, t, cd("exists(uint256)", &[u(*id)]), &enc(&[b(!s.is_zero())]))?;
            }
            must_view("totalSupply()", q, t, cd("totalSupply()", &[]), &enc(&[u(all)]))?;
        }
        Ok(())
    }
}
