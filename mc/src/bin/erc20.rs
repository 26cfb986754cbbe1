//! C01, C02: ERC-20 core and burnable.
extern crate alloc;
use alloy_primitives::{Address, U256};
use mc::abi::*;
use mc::erc20ref::*;
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::token::erc20::{self, extensions::IErc20Burnable, Erc20};
use stylus_sdk::prelude::*;

#[storage]
struct Tok {
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for Tok {}

#[public]
#[inherit(Erc20)]
impl Tok {
    fn mint(&mut self, to: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, v)
    }
    fn burn(&mut self, v: U256) -> Result<(), erc20::Error> {
        self.erc20.burn(v)
    }
    fn burn_from(&mut self, who: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20.burn_from(who, v)
    }
    fn raw_burn(&mut self, who: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20._burn(who, v)
    }
    fn raw_update(&mut self, from: Address, to: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20._update(from, to, v)
    }
    fn raw_spend(&mut self, o: Address, s: Address, v: U256) -> Result<(), erc20::Error> {
        self.erc20._spend_allowance(o, s, v)
    }
}

const TOKEN: Address = Address::new([0x70; 20]);

#[derive(Clone, Debug)]
enum Op {
    Mint(Address, U256),
    Burn(Address, U256),
    BurnFrom(Address, Address, U256),
    RawBurn(Address, U256),
    RawUpdate(Address, Address, U256),
    RawSpend(Address, Address, U256),
    Transfer(Address, Address, U256),
    TransferFrom(Address, Address, Address, U256),
    Approve(Address, Address, U256),
}

struct Sys {
    callers: Vec<Address>,
    parties: Vec<Address>, // arguments (includes zero)
    amounts: Vec<U256>,
    mints: Vec<U256>,
    raw: bool,
    allowance_ops: bool,
}

impl System for Sys {
    type Model = M20;
    type Op = Op;
    fn init(&self) -> (World, M20) {
        let mut w = World::default();
        w.acct(TOKEN).code = native!(Tok);
        (w, M20::new(TOKEN))
    }
    fn ops(&self, _m: &M20) -> Vec<Op> {
        let mut o = vec![];
        for p in &self.parties {
            for v in &self.mints {
                o.push(Op::Mint(*p, *v));
            }
        }
        for c in &self.callers {
            for v in &self.amounts {
                o.push(Op::Burn(*c, *v));
                for p in &self.parties {
                    o.push(Op::Transfer(*c, *p, *v));
                    if self.allowance_ops {
                        o.push(Op::Approve(*c, *p, *v));
                        o.push(Op::BurnFrom(*c, *p, *v));
                        for t in &self.parties {
                            o.push(Op::TransferFrom(*c, *p, *t, *v));
                        }
                    }
                }
            }
        }
        if self.raw {
            for p in &self.parties {
                for v in &self.amounts {
                    o.push(Op::RawBurn(*p, *v));
                    for t in &self.parties {
                        o.push(Op::RawUpdate(*p, *t, *v));
                        o.push(Op::RawSpend(*p, *t, *v));
                    }
                }
            }
        }
        o
    }
    fn apply(&self, m: &mut M20, op: &Op) -> Result<bool, String> {
        let (from, data, st, ret) = match op.clone() {
            Op::Mint(t, v) => (addr(99), cd("mint(address,uint256)", &[a(t), u(v)]), m.mint(t, v), vec![]),
            Op::Burn(c, v) => (c, cd("burn(uint256)", &[u(v)]), m.burn(c, v), vec![]),
            Op::BurnFrom(c, f, v) => (c, cd("burnFrom(address,uint256)", &[a(f), u(v)]), m.burn_from(c, f, v), vec![]),
            Op::RawBurn(f, v) => (addr(99), cd("rawBurn(address,uint256)", &[a(f), u(v)]), m.burn(f, v), vec![]),
            Op::RawUpdate(f, t, v) => {
                // `_update` with zero parties is mint / burn
                let st = if f.is_zero() && t.is_zero() {
                    if m.supply.checked_add(v).is_some() {
                        Ok(vec![ev_transfer(TOKEN, f, t, v)])
                    } else {
                        Err(vec![])
                    }
                } else if f.is_zero() {
                    m.mint(t, v)
                } else if t.is_zero() {
                    m.burn(f, v)
                } else {
                    m.transfer(f, t, v)
                };
                (addr(99), cd("rawUpdate(address,address,uint256)", &[a(f), a(t), u(v)]), st, vec![])
            }
            Op::RawSpend(o, s, v) => {
                (addr(99), cd("rawSpend(address,address,uint256)", &[a(o), a(s), u(v)]), m.spend(o, s, v), vec![])
            }
            Op::Transfer(c, t, v) => (c, cd("transfer(address,uint256)", &[a(t), u(v)]), m.transfer(c, t, v), ret_true()),
            Op::TransferFrom(c, f, t, v) => (
                c,
                cd("transferFrom(address,address,uint256)", &[a(f), a(t), u(v)]),
                m.transfer_from(c, f, t, v),
                ret_true(),
            ),
            Op::Approve(c, s, v) => (c, cd("approve(address,uint256)", &[a(s), u(v)]), m.approve(c, s, v), ret_true()),
        };
        step(&format!("{op:?}"), from, TOKEN, data, &expect(&st, ret))?;
        Ok(st.is_ok())
    }
    fn check(&self, m: &M20) -> Result<(), String> {
        let mut who = self.parties.clone();
        for c in &self.callers {
            if !who.contains(c) {
                who.push(*c);
            }
        }
        who.push(addr(77)); // an account never named by any operation
        m.check_views(&who)
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    let (x, y, z) = (addr(1), addr(2), addr(3));
    let zero = Address::ZERO;
    let n = |v: u64| U256::from(v);
    let p2 = |e: usize| U256::from(1) << e;
    let edge = vec![n(0), n(1), p2(64), p2(128) - n(1), p2(128), p2(255), U256::MAX - n(1), U256::MAX];
    let mut wide = vec![n(0), n(3), U256::MAX, U256::MAX - n(1)];
    for e in [1usize, 8, 16, 31, 32, 63, 64, 95, 96, 127, 128, 159, 160, 191, 192, 223, 224, 248, 254, 255] {
        wide.extend([p2(e) - n(1), p2(e), p2(e) + n(1), U256::MAX - p2(e)]);
    }
    wide.sort();
    wide.dedup();
    let far = Address::from([0xff; 20]);
    let one = Address::from_word(U256::from(1).into());
    match id.as_str() {
        "C01" => {
            let s = Sys { callers: vec![x, far], parties: vec![x, far, zero], amounts: wide.clone(), mints: wide.clone(), raw: false, allowance_ops: false };
            c.run("balances-wide", "mint then move: all pairs of amounts at every limb and byte boundary", &s, 2);
            let s = Sys { callers: vec![zero, x], parties: vec![x, one, far, zero, TOKEN], amounts: vec![n(0), n(1), U256::MAX], mints: vec![n(1)], raw: true, allowance_ops: true };
            c.run("unusual-addresses", "the zero address as caller; smallest and largest addresses, the token itself", &s, c.q(2, 3));
            let s = Sys { callers: vec![x, y, z], parties: vec![x, y, z, TOKEN, zero], amounts: vec![n(0), n(1), n(2)], mints: vec![n(1), n(2)], raw: false, allowance_ops: false };
            c.run("balances-deep", "3 holders + token address + zero, amounts 0..2, no allowances", &s, c.q(7, 10));
            let s = Sys { callers: vec![x, y], parties: vec![x, y, zero], amounts: edge.clone(), mints: edge.clone(), raw: true, allowance_ops: false };
            c.run("balances-edge-amounts", "2 holders, amounts {0,1,2^64,2^128-1,2^128,2^255,MAX-1,MAX}, internal _update/_burn/_spend_allowance included", &s, c.q(4, 5));
            let s = Sys { callers: vec![x, y], parties: vec![x, y, zero], amounts: vec![n(0), n(1), n(2)], mints: vec![n(2)], raw: true, allowance_ops: true };
            c.run("all-operations", "2 holders, amounts 0..2, every operation incl. allowances and internal ones", &s, c.q(5, 6));
        }
        "C02" => {
            let s = Sys { callers: vec![x, far], parties: vec![x, far], amounts: wide.clone(), mints: vec![U256::MAX], raw: false, allowance_ops: true };
            c.run("allowance-wide", "approve then spend: all pairs of amounts at every limb and byte boundary", &s, 2);
            let s = Sys { callers: vec![zero, x], parties: vec![x, one, far, zero, TOKEN], amounts: vec![n(0), n(1), U256::MAX], mints: vec![n(1)], raw: true, allowance_ops: true };
            c.run("unusual-addresses", "the zero address as caller; smallest and largest addresses, the token itself", &s, c.q(2, 3));
            let s = Sys { callers: vec![x, y, z], parties: vec![x, y, z, zero], amounts: vec![n(1), n(2)], mints: vec![n(2)], raw: false, allowance_ops: true };
            c.run("three-parties", "owner, spender, third party and zero; amounts 1..2", &s, c.q(4, 5));
            let s = Sys { callers: vec![x, y], parties: vec![x, y, zero], amounts: vec![n(0), n(1), n(3), U256::MAX], mints: vec![n(3)], raw: false, allowance_ops: true };
            c.run("allowance-deep", "2 accounts, amounts {0,1,3,MAX}: partial, exact, repeated and infinite allowances", &s, c.q(5, 6));
            let s = Sys { callers: vec![x, y], parties: vec![x, y], amounts: edge.clone(), mints: vec![U256::MAX, p2(128)], raw: true, allowance_ops: true };
            c.run("allowance-edge-amounts", "2 accounts, boundary amounts up to MAX, internal ops included", &s, 3);
        }
        _ => panic!("unknown property"),
    }
    // the token as a party in every place
    let s = Sys { callers: vec![TOKEN, x], parties: vec![x, TOKEN, zero], amounts: vec![n(0), n(1), n(2)], mints: vec![n(2)], raw: false, allowance_ops: true };
    c.run("the token itself as caller", "the token and one account as callers, holders, receivers and spenders; amounts 0..2; all histories to the depth", &s, c.q(4, 5));
    // accounts that differ in one bit share nothing
    let bits: Vec<(usize, u8)> = (0..160).flat_map(|i| (0..3u8).map(move |k| (i, k))).collect();
    c.enumerate("neighbouring accounts", "holder, spender or receiver against every account differing in one bit: balances, allowances and their use stay apart", &bits, |(i, k)| {
        let mut y2 = [x, y, z][*k as usize];
        y2[i / 8] ^= 1 << (i % 8);
        if y2.is_zero() || [x, y, z].contains(&y2) {
            return Ok(false);
        }
        let s = Sys { callers: vec![x, y, z], parties: vec![x, y, z, y2, zero], amounts: vec![], mints: vec![], raw: false, allowance_ops: true };
        let (wd, mut m) = s.init();
        mc::host::with(|vm| vm.world = wd);
        let ops = [
            Op::Mint(x, n(9)),
            Op::Mint(y2, n(4)),
            Op::Approve(x, y, n(5)),
            Op::Approve(y2, y, n(3)),
            Op::Approve(x, y2, n(2)),
            Op::TransferFrom(y, x, z, n(1)),
            Op::TransferFrom(y2, x, z, n(2)),
            Op::TransferFrom(y2, x, z, n(1)),
            Op::TransferFrom(y, y2, z, n(2)),
            Op::Transfer(z, y2, n(2)),
            Op::BurnFrom(y, y2, n(1)),
            Op::Burn(y2, n(1)),
            Op::Transfer(y2, x, n(1)),
            Op::Transfer(y2, x, n(9)),
        ];
        for op in &ops {
            s.apply(&mut m, op)?;
            s.check(&m)?;
        }
        Ok(true)
    });
    c.assume("the host model (storage cache, revert, logs, calls) follows Stylus/Nitro semantics");
    c.finish()
}
