//! C23: vesting schedule, releases and payments.
extern crate alloc;
use alloy_primitives::{Address, U256};
use mc::abi::*;
use mc::host::{self, caller, my_get, my_set, my_slot, on_stack, sub_call};
use mc::mocktok::{mock_token, set_mode, Mode, MODES, T_BAL};
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::finance::vesting_wallet::VestingWallet;

const T: Address = Address::new([0x7b; 20]);
const TA: Address = Address::new([0x61; 20]);
const TB: Address = Address::new([0x62; 20]);
const ZERO: Address = Address::ZERO;
fn n(v: u64) -> U256 {
    U256::from(v)
}

/// How the owner's account reacts when it is called.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u64)]
enum Payee {
    Eoa,
    Accepts,
    Reverts,
    Panics,
    ReleasesEth,
    ReleasesTok,
    Hands, // passes ownership on while being paid
}
const PAYEES: [Payee; 7] = [Payee::Eoa, Payee::Accepts, Payee::Reverts, Payee::Panics, Payee::ReleasesEth, Payee::ReleasesTok, Payee::Hands];
fn payee(i: usize) -> Address {
    addr(0x20 + i as u8)
}
fn mock_payee(_input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    match PAYEES[my_slot(0).to::<usize>()] {
        Payee::Reverts => return Err(vec![0xbe, 0xef]),
        Payee::Panics => panic!("payee"),
        Payee::ReleasesEth | Payee::ReleasesTok if on_stack(T) >= 2 => {}
        Payee::ReleasesEth => {
            if !sub_call(T, U256::ZERO, cd("release()", &[])).ok {
                return Err(vec![1]);
            }
        }
        Payee::ReleasesTok => {
            if !sub_call(T, U256::ZERO, cd("release(address)", &[a(TA)])).ok {
                return Err(vec![1]);
            }
        }
        Payee::Hands => {
            sub_call(T, U256::ZERO, cd("transferOwnership(address)", &[a(payee(0))]));
        }
        _ => {}
    }
    Ok(vec![])
}
/// A token that tells a receiving contract after moving the balance.
fn hooked_token(input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    if input.len() >= 4 && input[..4] == selector("transfer(address,uint256)") {
        let d = &input[4..];
        let to = Address::from_word(B256::from(word_at(d, 0).unwrap_or_default()));
        let v = word_at(d, 1).unwrap_or_default();
        let me = caller();
        let bf = my_get(T_BAL, me, ZERO);
        if bf < v || to.is_zero() {
            return Err(vec![]);
        }
        my_set(T_BAL, me, ZERO, bf - v);
        let bt = my_get(T_BAL, to, ZERO);
        my_set(T_BAL, to, ZERO, bt + v);
        let out = sub_call(to, U256::ZERO, vec![1, 2, 3, 4]);
        if !out.ok {
            return Err(out.data);
        }
        return Ok(enc(&[b(true)]));
    }
    mock_token(input)
}

#[derive(Clone, Debug)]
enum Op {
    Time(u64),
    Eth(U256),
    Tok(usize, U256),
    Shrink(usize),
    ReleaseEth,
    ReleaseTok(usize),
    Owner(Address, usize),
    Renounce(Address),
}
#[derive(Clone, Hash)]
struct M {
    t: u64,
    owner: Address,
    bal: [U256; 3], // eth, token A, token B
    rel: [U256; 3],
    got: std::collections::BTreeMap<(usize, Address), U256>,
    dep: [u64; 3],
    shrunk: bool,
}
struct Sys {
    start: u64,
    dur: u64,
    times: Vec<u64>,
    amounts: Vec<U256>,
    deps: [u64; 3],
    payees: Vec<usize>,
    modes: [Option<Mode>; 2], // None: hooked token
    shrink: bool,
    probe: Vec<u64>,
    toks: [Address; 2],
    /// owner at the start, if not the first payee
    first: Option<Address>,
}
impl Sys {
    /// The schedule; None where the product leaves the word (documented panic).
    fn vested(&self, m: &M, k: usize, t: u64) -> Option<U256> {
        let total = m.bal[k].checked_add(m.rel[k])?;
        let (t, s, d) = (t as u128, self.start as u128, self.dur as u128);
        if t < s {
            Some(U256::ZERO)
        } else if t >= s + d {
            Some(total)
        } else {
            Some(total.checked_mul(U256::from(t - s))? / U256::from(d))
        }
    }
    fn pay(&self, m: &mut M, k: usize, to: Address, v: U256) {
        if to != T {
            m.bal[k] -= v;
        }
        m.rel[k] += v;
        if v > U256::ZERO {
            *m.got.entry((k, to)).or_default() += v;
        }
    }
    fn kind(&self, x: Address) -> Payee {
        (0..PAYEES.len()).find(|i| payee(*i) == x).map(|i| PAYEES[i]).unwrap_or(Payee::Eoa)
    }
    fn balance_readable(&self, k: usize) -> bool {
        k == 0 || !matches!(self.modes[k - 1], Some(Mode::BalanceRevert) | Some(Mode::BalanceEmpty))
    }
    /// A release including whatever the payee does while being paid.
    fn release(&self, m: &mut M, k: usize, depth: usize) -> Option<Vec<Log>> {
        let owner = m.owner;
        if !self.balance_readable(k) {
            return None;
        }
        let v = self.vested(m, k, m.t)?.checked_sub(m.rel[k])?;
        m.rel[k].checked_add(v)?;
        if k > 0 && owner.is_zero() {
            return None; // the mock token refuses the zero account
        }
        if k > 0 {
            if let Some(md) = self.modes[k - 1] {
                if !md.reports_success() {
                    return None;
                }
            }
        }
        self.pay(m, k, owner, v);
        let mut logs = vec![];
        let called = if k == 0 { true } else { self.modes[k - 1].is_none() };
        if called {
            match self.kind(owner) {
                Payee::Reverts | Payee::Panics => return None,
                Payee::ReleasesEth if depth == 0 => logs.extend(self.release(m, 0, 1)?),
                Payee::ReleasesTok if depth == 0 => logs.extend(self.release(m, 1, 1)?),
                Payee::Hands => {
                    m.owner = payee(0);
                    logs.push(ev(T, "OwnershipTransferred(address,address)", &[a(owner), a(payee(0))], &[]));
                }
                _ => {}
            }
        }
        logs.push(if k == 0 {
            ev(T, "EtherReleased(uint256)", &[], &[u(v)])
        } else {
            ev(T, "ERC20Released(address,uint256)", &[a(self.toks[k - 1])], &[u(v)])
        });
        Some(logs)
    }
}
fn put_token(m: &M, t: Address, k: usize) {
    with(|vm| {
        let saved = std::mem::take(&mut vm.world);
        let mut wd = saved;
        host::mock_put(&mut wd, t, T_BAL, T, ZERO, m.bal[k]);
        vm.world = wd;
    });
}
impl System for Sys {
    type Model = M;
    type Op = Op;
    fn init(&self) -> (World, M) {
        let mut wd = World::default();
        wd.acct(T).code = native!(VestingWallet);
        let owner = self.first.unwrap_or(payee(self.payees[0]));
        wd.set_slot(T, 0, U256::from_be_bytes(owner.into_word().0));
        wd.set_slot(T, 3, U256::from(self.start) | (U256::from(self.dur) << 64));
        for (i, x) in self.toks.iter().enumerate() {
            match self.modes[i] {
                Some(md) => {
                    wd.acct(*x).code = Code::Native(mock_token);
                    set_mode(&mut wd, *x, md);
                }
                None => wd.acct(*x).code = Code::Native(hooked_token),
            }
        }
        for i in 1..PAYEES.len() {
            wd.acct(payee(i)).code = Code::Native(mock_payee);
            wd.set_slot(payee(i), 0, n(i as u64));
        }
        wd.timestamp = self.times[0];
        let m = M { t: self.times[0], owner, bal: [U256::ZERO; 3], rel: [U256::ZERO; 3], got: Default::default(), dep: [0; 3], shrunk: false };
        (wd, m)
    }
    fn ops(&self, m: &M) -> Vec<Op> {
        let mut v = vec![Op::ReleaseEth, Op::ReleaseTok(1), Op::ReleaseTok(2)];
        for t in &self.times {
            if *t > m.t {
                v.push(Op::Time(*t));
            }
        }
        for x in &self.amounts {
            if m.dep[0] < self.deps[0] {
                v.push(Op::Eth(*x));
            }
            for k in 1..3 {
                if m.dep[k] < self.deps[k] {
                    v.push(Op::Tok(k, *x));
                }
            }
        }
        if self.shrink && !m.shrunk && m.bal[1] > U256::ZERO {
            v.push(Op::Shrink(1));
        }
        if self.payees.len() > 1 {
            for i in &self.payees {
                if payee(*i) != m.owner {
                    v.push(Op::Owner(m.owner, *i));
                }
            }
            v.push(Op::Owner(addr(9), 0));
            v.push(Op::Renounce(m.owner));
            v.push(Op::Renounce(addr(9)));
        }
        v.retain(|o| !matches!(o, Op::Owner(x, _) | Op::Renounce(x) if x.is_zero()));
        v
    }
    fn apply(&self, m: &mut M, op: &Op) -> Result<bool, String> {
        let un = |x: Address| Expect::Err(vec![cd("OwnableUnauthorizedAccount(address)", &[a(x)])]);
        let (from, call, e) = match op {
            Op::Time(t) => {
                m.t = *t;
                with(|vm| vm.world.timestamp = *t);
                return Ok(true);
            }
            Op::Eth(v) => {
                let Some(s) = m.bal[0].checked_add(*v).filter(|s| s.checked_add(m.rel[0]).is_some()) else { return Ok(false) };
                m.bal[0] = s;
                m.dep[0] += 1;
                with(|vm| vm.world.acct(T).balance = s);
                return Ok(true);
            }
            Op::Tok(k, v) => {
                let Some(s) = m.bal[*k].checked_add(*v) else { return Ok(false) };
                m.bal[*k] = s;
                m.dep[*k] += 1;
                put_token(m, self.toks[*k - 1], *k);
                return Ok(true);
            }
            Op::Shrink(k) => {
                m.bal[*k] /= n(3);
                m.shrunk = true;
                put_token(m, self.toks[*k - 1], *k);
                return Ok(true);
            }
            Op::ReleaseEth | Op::ReleaseTok(_) => {
                let k = if let Op::ReleaseTok(k) = op { *k } else { 0 };
                let mut m2 = m.clone();
                let e = match self.release(&mut m2, k, 0) {
                    Some(l) => {
                        *m = m2;
                        Expect::Ok(vec![], l)
                    }
                    None => Expect::Fail,
                };
                (addr(7), if k == 0 { cd("release()", &[]) } else { cd("release(address)", &[a(self.toks[k - 1])]) }, e)
            }
            Op::Owner(by, i) => {
                let e = if *by == m.owner {
                    let l = vec![ev(T, "OwnershipTransferred(address,address)", &[a(m.owner), a(payee(*i))], &[])];
                    m.owner = payee(*i);
                    Expect::Ok(vec![], l)
                } else {
                    un(*by)
                };
                (*by, cd("transferOwnership(address)", &[a(payee(*i))]), e)
            }
            Op::Renounce(by) => {
                let e = if *by == m.owner {
                    let l = vec![ev(T, "OwnershipTransferred(address,address)", &[a(m.owner), a(ZERO)], &[])];
                    m.owner = ZERO;
                    Expect::Ok(vec![], l)
                } else {
                    un(*by)
                };
                (*by, cd("renounceOwnership()", &[]), e)
            }
        };
        step(&format!("{op:?}"), from, T, call, &e)?;
        Ok(matches!(e, Expect::Ok(..)))
    }
    fn check(&self, m: &M) -> Result<(), String> {
        let q = addr(9);
        must_view("owner()", q, T, cd("owner()", &[]), &enc(&[a(m.owner)]))?;
        must_view("start()", q, T, cd("start()", &[]), &enc(&[w(self.start)]))?;
        must_view("duration()", q, T, cd("duration()", &[]), &enc(&[w(self.dur)]))?;
        must_view("end()", q, T, cd("end()", &[]), &enc(&[u(n(self.start) + n(self.dur))]))?;
        for k in 0..3 {
            let tok = [ZERO, self.toks[0], self.toks[1]][k];
            let f = |name: &str, extra: Option<u64>| -> Vec<u8> {
                let mut ar = vec![];
                let mut sig = vec![];
                if k > 0 {
                    ar.push(a(tok));
                    sig.push("address");
                }
                if let Some(t) = extra {
                    ar.push(w(t));
                    sig.push("uint64");
                }
                cd(&format!("{name}({})", sig.join(",")), &ar)
            };
            must_view("released", q, T, f("released", None), &enc(&[u(m.rel[k])]))?;
            // token queries use mutable calls in this library: run them as transactions
            let ask = |what: &str, d: Vec<u8>, want: Option<U256>| -> Result<(), String> {
                let saved = with(|vm| vm.world.clone());
                let out = host::tx(q, T, U256::ZERO, d);
                with(|vm| vm.world = saved);
                match want {
                    Some(v) => {
                        if !out.ok || out.data != enc(&[u(v)]) {
                            return Err(format!("{what} of asset {k}: {} {} instead of {v}", out.ok, show(&out.data)));
                        }
                    }
                    None => {
                        if !out.ok && !self.balance_readable(k) && out.data != cd("InvalidToken(address)", &[a(tok)]) {
                            return Err(format!("{what} of asset {k}: failed with {} instead of InvalidToken", show(&out.data)));
                        }
                        if out.ok {
                            return Err(format!("{what} of asset {k}: must fail but returned {}", show(&out.data)));
                        }
                    }
                }
                Ok(())
            };
            let readable = self.balance_readable(k);
            for t in &self.probe {
                ask(&format!("vestedAmount({t})"), f("vestedAmount", Some(*t)), self.vested(m, k, *t).filter(|_| readable))?;
            }
            let now = self.vested(m, k, m.t);
            ask("releasable", f("releasable", None), now.and_then(|v| v.checked_sub(m.rel[k])).filter(|_| readable))?;
            if !self.shrink {
                if let Some(v) = now {
                    if m.rel[k] > v {
                        return Err(format!("asset {k}: released {} exceeds vested {v}", m.rel[k]));
                    }
                }
            }
            // real holdings
            let hold = |x: Address| if k == 0 { with(|vm| vm.world.acct(x).balance) } else { with(|vm| host::mock_get(&vm.world, tok, T_BAL, x, ZERO)) };
            if hold(T) != m.bal[k] {
                return Err(format!("asset {k}: the wallet holds {} instead of {}", hold(T), m.bal[k]));
            }
            let mut paid = U256::ZERO;
            for ((j, x), v) in &m.got {
                if *j == k {
                    paid += *v;
                    if *x != T && hold(*x) != *v {
                        return Err(format!("asset {k}: {x} was paid {} instead of {v}", hold(*x)));
                    }
                }
            }
            if paid != m.rel[k] {
                return Err("model: paid differs from released".into());
            }
        }
        Ok(())
    }
}

fn main() {
    host::install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    assert_eq!(id, "C23");
    let mut c = Check::new(&id);
    c.assume("the host model of the Stylus VM (storage cache, calls, reverts, logs) is faithful");
    let times = vec![0, 99, 100, 101, 103, 106, 107, 500];
    let probe = vec![0, 1, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 500, u64::MAX];
    let base = |payees: Vec<usize>| Sys { start: 100, dur: 7, times: times.clone(), amounts: vec![n(1), n(10), n(1000)], deps: [2, 1, 0], payees, modes: [Some(Mode::Normal), Some(Mode::Normal)], shrink: false, probe: probe.clone(), toks: [TA, TB], first: None };
    c.run("schedule and releases", "start 100, duration 7, 8 times in order, deposits of 1, 10 and 1000 wei (two) and token units (one) at any time, releases by anyone; all histories to a fixed point", &base(vec![0]), 60);
    let mut s = base(vec![0]);
    s.deps = [1, 1, 1];
    s.times = vec![99, 101, 103, 107];
    c.run("ether and two tokens", "one deposit of each asset; accounting per asset is independent; all histories to a fixed point", &s, 60);
    let mut s = base(vec![0]);
    s.deps = [0, 2, 0];
    s.shrink = true;
    c.run("token whose balance shrinks", "a token that takes two thirds of the wallet's balance at any point: releasable and release fail while less is vested than released; to a fixed point", &s, 60);
    for i in 0..PAYEES.len() {
        let mut s = base(vec![i]);
        s.modes = [None, None];
        s.deps = [2, 2, 0];
        s.times = vec![99, 101, 103, 107];
        s.amounts = vec![n(10)];
        c.run(&format!("payee {:?}", PAYEES[i]), "hooked token and ether paid to a payee with this behaviour, times 99,101,103,107, two deposits of each asset; all histories to a fixed point", &s, 60);
    }
    let mut s = base(vec![0, 1, 2, 4, 6]);
    s.modes = [None, Some(Mode::Normal)];
    s.times = vec![99, 103, 107];
    s.amounts = vec![n(10)];
    s.deps = [1, 1, 0];
    let d = c.q(10, 14);
    c.run("changing owners", &format!("ownership passing between 5 payee kinds and renounced, mixed with deposits and releases; all histories up to {d} operations"), &s, d);
    for md in MODES {
        let mut s = base(vec![0]);
        s.modes = [Some(md), Some(Mode::Normal)];
        s.times = vec![99, 103, 107];
        s.amounts = vec![n(10)];
        s.deps = [1, 1, 0];
        c.run(&format!("token answering {md:?}"), "one deposit of ether and token, 3 times; to a fixed point", &s, 60);
    }
    // durations and start times
    let mut k: Vec<(u64, u64)> = vec![];
    for st in [0, 1, 7, 1 << 32, (1 << 40) + 3, u64::MAX - 1, u64::MAX] {
        for du in [0, 1, 2, 3, 9, 255, 256, 65536, 1 << 32, u64::MAX - 1, u64::MAX] {
            k.push((st, du));
        }
    }
    let amounts: Vec<U256> = vec![n(0), n(1), n(2), n(999_999_937), n(10).pow(n(18)) + n(1), (U256::from(1) << 128) + n(5), (U256::from(1) << 192) - n(1), U256::from(1) << 192, U256::MAX / n(3), U256::MAX - n(1), U256::MAX];
    let cases: Vec<((u64, u64), U256)> = k.iter().flat_map(|x| amounts.iter().map(move |y| (*x, *y))).collect();
    c.enumerate("every start, duration and amount", "7 starts x 11 durations up to 2^64-1 x 11 amounts up to 2^256-1; queried at every boundary time and released step by step", &cases, |((st, du), am)| {
        let mut times: Vec<u64> = vec![0];
        let e = (*st as u128 + *du as u128).min(u64::MAX as u128) as u64;
        for x in [*st, e, st / 2, st + (e - st) / 2, st + (e - st) / 3] {
            times.extend([x.saturating_sub(1), x, x.saturating_add(1)]);
        }
        times.push(u64::MAX);
        times.sort();
        times.dedup();
        let s = Sys { start: *st, dur: *du, times: times.clone(), amounts: vec![], deps: [0; 3], payees: vec![0], modes: [Some(Mode::Normal), Some(Mode::Normal)], shrink: false, probe: times.clone(), toks: [TA, TB], first: None };
        let (wd, mut m) = s.init();
        with(|vm| vm.world = wd);
        s.apply(&mut m, &Op::Eth(*am))?;
        s.apply(&mut m, &Op::Tok(1, *am / n(2)))?;
        s.apply(&mut m, &Op::Tok(2, U256::MAX - *am))?;
        let mut any = false;
        for t in &times {
            s.apply(&mut m, &Op::Time(*t))?;
            s.check(&m)?;
            for op in [Op::ReleaseEth, Op::ReleaseTok(1), Op::ReleaseTok(2)] {
                any |= s.apply(&mut m, &op)?;
            }
            s.check(&m)?;
        }
        Ok(any)
    });
    let flip = |x: Address, k: usize| Address::from_word(B256::from(U256::from_be_bytes(x.into_word().0) ^ (n(1) << k)));
    let mut who: Vec<(Address, [Address; 2])> = vec![];
    for k in 0..160 {
        for x in [T, TA, payee(0), ZERO] {
            who.push((flip(x, k), [TA, TB]));
        }
        who.push((payee(0), [TA, flip(TA, k)]));
        who.push((TA, [TA, flip(TA, k)]));
        who.push((TB, [flip(T, k), TB]));
        if k >= 8 {
            who.push((payee(0), [flip(ZERO, k), flip(addr(0x60), k)]));
        }
    }
    who.extend([(T, [TA, TB]), (TA, [TA, TB]), (TB, [TA, TB]), (ZERO, [TA, TB])]);
    c.enumerate("owners and tokens", "every one-bit address and one-bit neighbour of the wallet, of a token and of an account as owner; the wallet, the tokens and nobody as owner; two tokens whose addresses differ in one bit", &who, |(o, toks)| {
        let mut s = base(vec![0]);
        s.first = Some(*o);
        s.toks = *toks;
        s.probe = vec![99, 103, 107];
        let plain = *o != T && *o != ZERO && !toks.contains(o);
        let mut ops = vec![Op::Time(99), Op::Tok(1, n(100)), Op::Tok(2, n(50)), Op::Eth(n(70))];
        for t in [101, 103, 106, 107] {
            ops.extend([Op::Time(t), Op::ReleaseTok(1), Op::ReleaseTok(2), Op::ReleaseTok(1)]);
            if plain {
                ops.push(Op::ReleaseEth);
            }
            if t == 103 {
                ops.extend([Op::Tok(1, n(30)), Op::Tok(2, n(9))]);
            }
        }
        ops.push(Op::Owner(if plain { flip(*o, 3) } else { addr(9) }, 1));
        if *o != ZERO {
            ops.extend([Op::Owner(*o, 1), Op::Tok(1, n(5)), Op::ReleaseTok(1), Op::ReleaseEth, Op::Renounce(*o)]);
        }
        mc::engine::script(&s, &ops).map(|_| true)
    });
    c.finish()
}
