//! C24 (checkpoints), C25 (bitmap), C26 (integer helpers), C27 (recovery), C28 (typed data).
extern crate alloc;
use alloy_primitives::{Address, Uint, B256, U256, U32, U512};
use mc::abi::*;
use mc::host;
use mc::report::Check;
use mc::*;
use openzeppelin_stylus::utils::{
    cryptography::{
        ecdsa,
        eip712::{to_typed_data_hash, IEip712},
    },
    math::alloy::{Math, Rounding},
    structs::{
        bitmap::BitMap,
        checkpoints::{self, Trace, S160, S208, S224},
    },
};
use std::collections::{BTreeMap, BTreeSet};
use stylus_sdk::prelude::*;

const T: Address = Address::new([0x7c; 20]);
fn n(v: u64) -> U256 {
    U256::from(v)
}

// ---------------------------------------------------------------------- C24

#[storage]
struct Tr160 {
    pad: stylus_sdk::storage::StorageU256,
    tr: Trace<S160>,
    other: Trace<S160>,
}
unsafe impl TopLevelStorage for Tr160 {}
#[public]
impl Tr160 {
    fn push(&mut self, k: U256, v: U256) -> Result<(U256, U256), checkpoints::Error> {
        let (x, y) = self.tr.push(Uint::from(k), Uint::from(v))?;
        Ok((U256::from(x), U256::from(y)))
    }
    fn lower(&self, k: U256) -> U256 {
        U256::from(self.tr.lower_lookup(Uint::from(k)))
    }
    fn upper(&self, k: U256) -> U256 {
        U256::from(self.tr.upper_lookup(Uint::from(k)))
    }
    fn recent(&self, k: U256) -> U256 {
        U256::from(self.tr.upper_lookup_recent(Uint::from(k)))
    }
    fn latest(&self) -> U256 {
        U256::from(self.tr.latest())
    }
    fn newest(&self) -> (bool, U256, U256) {
        match self.tr.latest_checkpoint() {
            Some((k, v)) => (true, U256::from(k), U256::from(v)),
            None => (false, U256::ZERO, U256::ZERO),
        }
    }
    fn count(&self) -> U256 {
        self.tr.length()
    }
    fn at(&self, i: u32) -> (U256, U256) {
        let (k, v) = self.tr.at(U32::from(i));
        (U256::from(k), U256::from(v))
    }
    fn other_count(&self) -> U256 {
        self.other.length()
    }
}

#[storage]
struct Tr208 {
    pad: stylus_sdk::storage::StorageU256,
    tr: Trace<S208>,
    other: Trace<S208>,
}
unsafe impl TopLevelStorage for Tr208 {}
#[public]
impl Tr208 {
    fn push(&mut self, k: U256, v: U256) -> Result<(U256, U256), checkpoints::Error> {
        let (x, y) = self.tr.push(Uint::from(k), Uint::from(v))?;
        Ok((U256::from(x), U256::from(y)))
    }
    fn lower(&self, k: U256) -> U256 {
        U256::from(self.tr.lower_lookup(Uint::from(k)))
    }
    fn upper(&self, k: U256) -> U256 {
        U256::from(self.tr.upper_lookup(Uint::from(k)))
    }
    fn recent(&self, k: U256) -> U256 {
        U256::from(self.tr.upper_lookup_recent(Uint::from(k)))
    }
    fn latest(&self) -> U256 {
        U256::from(self.tr.latest())
    }
    fn newest(&self) -> (bool, U256, U256) {
        match self.tr.latest_checkpoint() {
            Some((k, v)) => (true, U256::from(k), U256::from(v)),
            None => (false, U256::ZERO, U256::ZERO),
        }
    }
    fn count(&self) -> U256 {
        self.tr.length()
    }
    fn at(&self, i: u32) -> (U256, U256) {
        let (k, v) = self.tr.at(U32::from(i));
        (U256::from(k), U256::from(v))
    }
    fn other_count(&self) -> U256 {
        self.other.length()
    }
}

#[storage]
struct Tr224 {
    pad: stylus_sdk::storage::StorageU256,
    tr: Trace<S224>,
    other: Trace<S224>,
}
unsafe impl TopLevelStorage for Tr224 {}
#[public]
impl Tr224 {
    fn push(&mut self, k: U256, v: U256) -> Result<(U256, U256), checkpoints::Error> {
        let (x, y) = self.tr.push(Uint::from(k), Uint::from(v))?;
        Ok((U256::from(x), U256::from(y)))
    }
    fn lower(&self, k: U256) -> U256 {
        U256::from(self.tr.lower_lookup(Uint::from(k)))
    }
    fn upper(&self, k: U256) -> U256 {
        U256::from(self.tr.upper_lookup(Uint::from(k)))
    }
    fn recent(&self, k: U256) -> U256 {
        U256::from(self.tr.upper_lookup_recent(Uint::from(k)))
    }
    fn latest(&self) -> U256 {
        U256::from(self.tr.latest())
    }
    fn newest(&self) -> (bool, U256, U256) {
        match self.tr.latest_checkpoint() {
            Some((k, v)) => (true, U256::from(k), U256::from(v)),
            None => (false, U256::ZERO, U256::ZERO),
        }
    }
    fn count(&self) -> U256 {
        self.tr.length()
    }
    fn at(&self, i: u32) -> (U256, U256) {
        let (k, v) = self.tr.at(U32::from(i));
        (U256::from(k), U256::from(v))
    }
    fn other_count(&self) -> U256 {
        self.other.length()
    }
}

#[derive(Clone, Debug)]
struct Push(U256, U256);
struct CSys {
    code: Code,
    keys: Vec<U256>,
    vals: Vec<U256>,
    maxlen: usize,
}
#[derive(Clone, Hash)]
struct CM(Vec<(U256, U256)>);
impl CSys {
    fn lookups(&self, m: &CM, keys: &[U256]) -> Result<(), String> {
        let q = addr(9);
        for k in keys {
            let up = m.0.iter().rev().find(|x| x.0 <= *k).map(|x| x.1).unwrap_or_default();
            let lo = m.0.iter().find(|x| x.0 >= *k).map(|x| x.1).unwrap_or_default();
            must_view(&format!("upper_lookup({k})"), q, T, cd("upper(uint256)", &[u(*k)]), &enc(&[u(up)]))?;
            must_view(&format!("upper_lookup_recent({k})"), q, T, cd("recent(uint256)", &[u(*k)]), &enc(&[u(up)]))?;
            must_view(&format!("lower_lookup({k})"), q, T, cd("lower(uint256)", &[u(*k)]), &enc(&[u(lo)]))?;
        }
        Ok(())
    }
    fn positions(&self, m: &CM) -> Result<(), String> {
        let q = addr(9);
        must_view("length", q, T, cd("count()", &[]), &enc(&[w(m.0.len() as u64)]))?;
        must_view("other length", q, T, cd("otherCount()", &[]), &enc(&[w(0)]))?;
        let last = m.0.last().copied();
        must_view("latest", q, T, cd("latest()", &[]), &enc(&[u(last.map(|x| x.1).unwrap_or_default())]))?;
        let (k, v) = last.unwrap_or_default();
        must_view("latest_checkpoint", q, T, cd("newest()", &[]), &enc(&[b(last.is_some()), u(k), u(v)]))?;
        for (i, (k, v)) in m.0.iter().enumerate() {
            must_view("at", q, T, cd("at(uint32)", &[w(i as u64)]), &enc(&[u(*k), u(*v)]))?;
        }
        for i in [m.0.len() as u64, m.0.len() as u64 + 1, u32::MAX as u64] {
            must_fail_view("at (beyond the end)", q, T, cd("at(uint32)", &[w(i)]), &[])?;
        }
        Ok(())
    }
}
impl System for CSys {
    type Model = CM;
    type Op = Push;
    fn init(&self) -> (World, CM) {
        let mut wd = World::default();
        wd.acct(T).code = self.code;
        (wd, CM(vec![]))
    }
    fn ops(&self, m: &CM) -> Vec<Push> {
        let last = m.0.last().map(|x| x.0);
        let mut v = vec![];
        for k in &self.keys {
            if m.0.len() >= self.maxlen && last.map(|l| *k > l).unwrap_or(true) {
                continue;
            }
            for x in &self.vals {
                v.push(Push(*k, *x));
            }
        }
        v
    }
    fn apply(&self, m: &mut CM, Push(k, v): &Push) -> Result<bool, String> {
        let call = cd("push(uint256,uint256)", &[u(*k), u(*v)]);
        let e = match m.0.last_mut() {
            Some(l) if l.0 > *k => Expect::Err(vec![cd("CheckpointUnorderedInsertion()", &[])]),
            Some(l) if l.0 == *k => {
                let old = l.1;
                l.1 = *v;
                Expect::Ok(enc(&[u(old), u(*v)]), vec![])
            }
            l => {
                let old = l.map(|x| x.1).unwrap_or_default();
                m.0.push((*k, *v));
                Expect::Ok(enc(&[u(old), u(*v)]), vec![])
            }
        };
        step(&format!("push({k},{v})"), addr(9), T, call, &e)?;
        Ok(matches!(e, Expect::Ok(..)))
    }
    fn check(&self, m: &CM) -> Result<(), String> {
        let mut keys = self.keys.clone();
        for k in &self.keys {
            keys.extend([k.saturating_sub(n(1)), *k + n(1)]);
        }
        let max = self.keys.last().copied().unwrap();
        keys.retain(|k| *k <= max);
        keys.sort();
        keys.dedup();
        self.lookups(m, &keys)?;
        self.positions(m)
    }
}
fn c24(c: &mut Check) {
    let sizes: Vec<(&str, Code, usize, usize)> = vec![("S160", native!(Tr160), 96, 160), ("S208", native!(Tr208), 48, 208), ("S224", native!(Tr224), 32, 224)];
    for (name, code, kb, vb) in &sizes {
        let kmax = (U256::from(1) << *kb) - n(1);
        let vmax = (U256::from(1) << *vb) - n(1);
        let len = c.q(6, 7);
        let sys = CSys { code: *code, keys: vec![n(0), n(1), n(3), n(6), kmax >> 1, kmax - n(1), kmax], vals: vec![n(0), n(5), vmax], maxlen: len };
        c.run(&format!("{name}: all insertion histories"), &format!("keys {{0,1,3,6,max/2,max-1,max}}, values {{0,5,max}}, up to {len} checkpoints; every lookup of every key and neighbour in every state; to a fixed point"), &sys, 40);
        // longer traces, where the recent-lookup shortcut is active: every key set over 12 keys
        let bits = c.q(13usize, 15);
        let sets: Vec<u32> = (0..(1u32 << bits)).collect();
        let code = *code;
        c.enumerate(&format!("{name}: every key set"), &format!("every subset of {bits} keys inserted in order; all lookups of all keys"), &sets, |set| {
            let sys = CSys { code, keys: vec![], vals: vec![], maxlen: 99 };
            let (wd, mut m) = sys.init();
            with(|vm| vm.world = wd);
            for i in 0..bits {
                if set >> i & 1 == 1 {
                    sys.apply(&mut m, &Push(n(i as u64 + 1), n(1000 + i as u64)))?;
                }
            }
            let keys: Vec<U256> = (0..=bits as u64 + 2).map(n).collect();
            sys.lookups(&m, &keys)?;
            sys.positions(&m)?;
            Ok(true)
        });
        let lens: Vec<usize> = (0..=c.q(300, 1500)).collect();
        c.enumerate(&format!("{name}: every length"), &format!("traces of every length up to {} with keys 2,4,6,...; every key from 0 to beyond the last", lens.len() - 1), &lens, |l| {
            let sys = CSys { code, keys: vec![], vals: vec![], maxlen: 99999 };
            let (wd, mut m) = sys.init();
            with(|vm| vm.world = wd);
            for i in 0..*l as u64 {
                sys.apply(&mut m, &Push(n(2 * i + 2), n(7 * i + 1)))?;
            }
            let keys: Vec<U256> = (0..=2 * *l as u64 + 3).map(n).collect();
            sys.lookups(&m, &keys)?;
            if *l % 16 == 0 {
                sys.positions(&m)?;
            }
            // the newest key again, then smaller ones, then a new one
            if *l > 0 {
                let last = 2 * *l as u64;
                for (k, v) in [(last, 3), (last - 1, 4), (0, 5), (last, 0), (1, 6), (last + 1, 9)] {
                    sys.apply(&mut m, &Push(n(k), n(v)))?;
                }
                let near: Vec<U256> = (last.saturating_sub(5)..last + 4).chain([0, 1, 2, 3]).map(n).collect();
                sys.lookups(&m, &near)?;
                if *l % 16 == 0 {
                    sys.positions(&m)?;
                }
            }
            Ok(true)
        });
        // keys and values over the whole width
        let mut keys: Vec<U256> = vec![];
        let one = n(1);
        for i in 0..*kb {
            keys.extend([(one << i) - one, one << i, kmax - (one << i)]);
        }
        keys.extend([kmax]);
        keys.sort();
        keys.dedup();
        let cut: Vec<(usize, usize)> = (1..=6).flat_map(|s| (0..s).map(move |o| (s, o))).chain((0..keys.len()).step_by(3).map(|l| (1, l))).collect();
        c.enumerate(&format!("{name}: keys over the whole width"), "keys at every bit boundary from both ends, taking every k-th key (k up to 6, every offset) or every tail; values over the whole width; every key and its neighbours looked up", &cut, |(s, o)| {
            let sys = CSys { code, keys: vec![], vals: vec![], maxlen: 99999 };
            let (wd, mut m) = sys.init();
            with(|vm| vm.world = wd);
            for (j, k) in keys.iter().enumerate().skip(*o).step_by(*s) {
                let v = if j % 2 == 0 { one << (j % *vb) } else { vmax - (one << (j % *vb)) };
                sys.apply(&mut m, &Push(*k, v))?;
            }
            let mut near: Vec<U256> = keys.iter().flat_map(|k| [k.saturating_sub(one), *k, (*k + one).min(kmax)]).collect();
            near.dedup();
            sys.lookups(&m, &near)?;
            sys.positions(&m)?;
            Ok(true)
        });
    }
}

// ---------------------------------------------------------------------- C25
#[storage]
struct Bits {
    first: BitMap,
    bm: BitMap,
    last: BitMap,
}
unsafe impl TopLevelStorage for Bits {}
#[public]
impl Bits {
    fn get(&self, i: U256) -> bool {
        self.bm.get(i)
    }
    fn set(&mut self, i: U256) {
        self.bm.set(i);
    }
    fn unset(&mut self, i: U256) {
        self.bm.unset(i);
    }
    fn set_to(&mut self, i: U256, v: bool) {
        self.bm.set_to(i, v);
    }
    fn others(&self, i: U256) -> bool {
        self.first.get(i) || self.last.get(i)
    }
    fn fill(&mut self, base: U256) {
        for k in 0..256u64 {
            self.bm.set(base + U256::from(k));
        }
    }
}
#[derive(Clone, Debug)]
enum BOp {
    Set(U256),
    Unset(U256),
    SetTo(U256, bool),
}
struct BSys {
    ix: Vec<U256>,
}
#[derive(Clone, Hash)]
struct BM(BTreeSet<U256>);
impl System for BSys {
    type Model = BM;
    type Op = BOp;
    fn init(&self) -> (World, BM) {
        let mut wd = World::default();
        wd.acct(T).code = native!(Bits);
        (wd, BM(BTreeSet::new()))
    }
    fn ops(&self, _: &BM) -> Vec<BOp> {
        self.ix.iter().flat_map(|i| [BOp::Set(*i), BOp::Unset(*i), BOp::SetTo(*i, true), BOp::SetTo(*i, false)]).collect()
    }
    fn apply(&self, m: &mut BM, op: &BOp) -> Result<bool, String> {
        let (i, v, call) = match op {
            BOp::Set(i) => (i, true, cd("set(uint256)", &[u(*i)])),
            BOp::Unset(i) => (i, false, cd("unset(uint256)", &[u(*i)])),
            BOp::SetTo(i, v) => (i, *v, cd("setTo(uint256,bool)", &[u(*i), b(*v)])),
        };
        if v {
            m.0.insert(*i);
        } else {
            m.0.remove(i);
        }
        step(&format!("{op:?}"), addr(9), T, call, &Expect::Ok(vec![], vec![]))?;
        Ok(true)
    }
    fn check(&self, m: &BM) -> Result<(), String> {
        let mut all: BTreeSet<U256> = self.ix.iter().copied().collect();
        for i in &self.ix {
            for d in [1u64, 255, 256, 257] {
                all.insert(i.wrapping_add(n(d)));
                all.insert(i.wrapping_sub(n(d)));
            }
        }
        for i in all {
            must_view(&format!("get({i:#x})"), addr(9), T, cd("get(uint256)", &[u(i)]), &enc(&[b(m.0.contains(&i))]))?;
            must_view("other bitmaps", addr(9), T, cd("others(uint256)", &[u(i)]), &enc(&[b(false)]))?;
        }
        Ok(())
    }
}
fn c25(c: &mut Check) {
    let mx = U256::MAX;
    let one = U256::from(1);
    let mut ix = vec![n(0), n(1), n(255), n(256), mx, mx - n(255), mx - n(256), one << 255];
    if c.thorough() {
        ix.extend([n(128), n(511), n(512)]);
    }
    let k = ix.len();
    c.run("bitmap histories", &format!("{k} indices around word boundaries and the maximum; set, unset, setTo; all 2^{k} states, every neighbouring index read in each"), &BSys { ix }, 60);
    let sys = BSys { ix: vec![n(63), n(64), n(127), n(128), n(191), n(192), one << 8, one << 64] };
    c.run("bitmap limb boundaries", "indices around limb boundaries inside a word and in high words; all 2^8 states", &sys, 60);
    // every bit of several words
    let mut cases: Vec<(U256, u64, bool)> = vec![];
    for base in [n(0), n(256), one << 64, one << 128, one << 255, mx - n(255)] {
        for bit in 0..256u64 {
            cases.push((base, bit, false));
            cases.push((base, bit, true));
        }
    }
    c.enumerate("every bit of six words", "each index set in an empty word and cleared in a full one; all 768 indices of that word and its neighbours read", &cases, |(base, bit, full)| {
        let mut wd = World::default();
        wd.acct(T).code = native!(Bits);
        with(|vm| vm.world = wd);
        let i = *base + n(*bit);
        let call = if *full {
            host::tx(addr(9), T, U256::ZERO, cd("fill(uint256)", &[u(*base)]));
            cd("unset(uint256)", &[u(i)])
        } else {
            cd("set(uint256)", &[u(i)])
        };
        step("set/unset", addr(9), T, call, &Expect::Ok(vec![], vec![]))?;
        for k in 0..768u64 {
            let j = base.wrapping_sub(n(256)).wrapping_add(n(k));
            let inside = (256..512).contains(&k);
            let want = if *full { inside && j != i } else { j == i };
            must_view(&format!("get({j:#x})"), addr(9), T, cd("get(uint256)", &[u(j)]), &enc(&[b(want)]))?;
        }
        Ok(true)
    });
}

// ---------------------------------------------------------------------- C26
fn wide(extra: bool) -> Vec<U256> {
    let mut v: Vec<U256> = (0..40).map(n).collect();
    for i in 2..256usize {
        let p = U256::from(1) << i;
        v.extend([p - n(1), p, p + n(1)]);
        if extra {
            v.extend([p + (p >> 1), p - (p >> 3) - n(1), p - n(2), p + n(2)]);
        }
    }
    v.extend([U256::MAX, U256::MAX - n(1), U256::MAX - n(2), U256::MAX / n(3), U256::MAX / n(3) * n(2), U256::MAX / n(5), U256::MAX / n(10000)]);
    let mut t = n(1);
    for _ in 0..77 {
        t *= n(10);
        v.extend([t - n(1), t, t + n(1)]);
    }
    for byte in [0x55u8, 0xaa, 0x0f, 0xf0, 0x01, 0x80, 0xfe, 0x7f] {
        v.push(U256::from_be_bytes([byte; 32]));
    }
    v.sort();
    v.dedup();
    v
}
fn sq_ok(x: U256) -> Result<(), String> {
    let Some(r) = quiet(|| Math::sqrt(x)) else { return Err(format!("sqrt({x}) panicked")) };
    let (l, h) = (U512::from(r), U512::from(r) + U512::from(1));
    let xx = U512::from(x);
    if r >= (U256::from(1) << 128) || l * l > xx || h * h <= xx {
        return Err(format!("sqrt({x}) = {r}"));
    }
    Ok(())
}
fn c26(c: &mut Check) {
    // square root: every small value, and both sides of perfect squares of every magnitude
    let blocks: Vec<u64> = (0..c.q(1u64 << 14, 1 << 18)).collect();
    c.enumerate("sqrt of every small value", &format!("every value below {}", (blocks.len() as u64) << 12), &blocks, |bl| {
        let mut r = bl.wrapping_shl(12).isqrt_();
        for k in 0..4096u64 {
            let x = (bl << 12) + k;
            while (r + 1) * (r + 1) <= x {
                r += 1;
            }
            if quiet_u(x) != Some(n(r)) {
                return Err(format!("sqrt({x}) = {:?} instead of {r}", quiet_u(x)));
            }
        }
        Ok(true)
    });
    c.scale_last(4096);
    let mut roots: Vec<U256> = wide(true).into_iter().filter(|x| *x < (U256::from(1) << 128)).collect();
    for i in 1..128usize {
        for d in 0..c.q(400u64, 6000) {
            let p = U256::from(1) << i;
            roots.push(p + n(d));
            roots.push(p.saturating_sub(n(d)));
        }
    }
    roots.retain(|x| *x < (U256::from(1) << 128));
    roots.sort();
    roots.dedup();
    c.enumerate("sqrt around perfect squares", "r*r-1, r*r, r*r+1, r*r+r, r*r+2r for roots r of every magnitude below 2^128", &roots, |r| {
        let s = *r * *r;
        for x in [s.saturating_sub(n(1)), s, s.saturating_add(n(1)), s.saturating_add(*r), s.saturating_add(*r).saturating_add(*r), s.saturating_add(*r).saturating_add(*r).saturating_add(n(1))] {
            sq_ok(x)?;
        }
        Ok(true)
    });
    c.scale_last(6);
    let wv = wide(true);
    c.enumerate("sqrt of structured values", "values around powers of two and ten and byte patterns over 256 bits", &wv, |x| sq_ok(*x).map(|_| true));
    // average
    c.enumerate("average of structured pairs", "all ordered pairs of the structured values", &wv, |x| {
        for y in &wv {
            let sum: U512 = U512::from(*x) + U512::from(*y);
            let half: U512 = sum >> 1usize;
            let want: U256 = half.to();
            let got = quiet(|| Math::average(*x, *y));
            if got != Some(want) {
                return Err(format!("average({x},{y}) = {got:?} instead of {want}"));
            }
        }
        Ok(true)
    });
    c.scale_last(wv.len() as u64);
    let small: Vec<u64> = (0..1024).collect();
    c.enumerate("average of small pairs", "all pairs below 1024", &small, |x| {
        for y in 0..1024 {
            if quiet(|| Math::average(n(*x), n(y))) != Some(n((x + y) / 2)) {
                return Err(format!("average({x},{y})"));
            }
        }
        Ok(true)
    });
    c.scale_last(1024);
    // scaled division
    let one = |x: U256, y: U256, d: U256| -> Result<bool, String> {
        let p: U512 = U512::from(x) * U512::from(y);
        for up in [false, true] {
            let got = quiet(|| x.mul_div(y, d, if up { Rounding::Ceil } else { Rounding::Floor }));
            let want = if d.is_zero() {
                None
            } else {
                let (q, r) = (p / U512::from(d), p % U512::from(d));
                let q = if up && !r.is_zero() { q + U512::from(1) } else { q };
                (q <= U512::from(U256::MAX)).then(|| q.to::<U256>())
            };
            // independent of the division: q*d brackets the product
            if let Some(q) = want {
                let (lo, hi) = (U512::from(q) * U512::from(d), U512::from(d) - U512::from(1));
                let ok = if up { lo >= p && (q.is_zero() || lo - p <= hi) } else { lo <= p && p - lo <= hi };
                if !ok {
                    return Err("oracle".into());
                }
            }
            if got != want {
                return Err(format!("mul_div({x},{y},{d},{}) = {got:?} instead of {want:?}", if up { "ceil" } else { "floor" }));
            }
        }
        Ok(!d.is_zero())
    };
    let s: Vec<u64> = (0..c.q(96, 200)).collect();
    c.enumerate("mul_div of small triples", &format!("all triples below {}", s.len()), &s, |x| {
        for y in 0..s.len() as u64 {
            for d in 0..s.len() as u64 {
                let _ = one(n(*x), n(y), n(d))?;
            }
        }
        Ok(true)
    });
    c.scale_last((s.len() * s.len()) as u64);
    let mut e: Vec<U256> = (0..6).map(n).collect();
    for i in (3usize..256).step_by(c.q(7, 3)).chain([64, 128, 192, 255]) {
        let p = U256::from(1) << i;
        e.extend([p - n(1), p, p + n(1)]);
    }
    e.extend([U256::MAX, U256::MAX - n(1), U256::MAX / n(3), n(10).pow(n(18)), n(10).pow(n(36)) + n(1), n(9999), n(10000)]);
    e.sort();
    e.dedup();
    c.enumerate("mul_div of structured triples", "all triples of values around powers of two of every limb, ten and the maximum, both roundings", &e, |x| {
        for y in &e {
            for d in &e {
                one(*x, *y, *d)?;
            }
        }
        Ok(true)
    });
    c.scale_last((e.len() * e.len()) as u64);
}
trait Isq {
    fn isqrt_(self) -> u64;
}
impl Isq for u64 {
    fn isqrt_(self) -> u64 {
        let mut r = (self as f64).sqrt() as u64;
        while r * r > self {
            r -= 1;
        }
        r
    }
}
fn quiet_u(x: u64) -> Option<U256> {
    quiet(|| Math::sqrt(n(x)))
}

// ---------------------------------------------------------------------- C27
#[storage]
struct Rec {
    hits: stylus_sdk::storage::StorageU256,
}
unsafe impl TopLevelStorage for Rec {}
#[public]
impl Rec {
    fn recover(&mut self, h: B256, v: u8, r: B256, s: B256) -> Result<Address, ecdsa::Error> {
        ecdsa::recover(self, h, v, r, s)
    }
}
fn expect_rec(h: B256, v: u8, r: B256, s: B256) -> Expect {
    if U256::from_be_bytes(s.0) > sig::N_HALF {
        return Expect::Err(vec![cd("ECDSAInvalidSignatureS(bytes32)", &[b32(s)])]);
    }
    match sig::recover(h, U256::from(v), r, s) {
        Some(x) => Expect::Ok(enc(&[a(x)]), vec![]),
        None => Expect::Err(vec![cd("ECDSAInvalidSignature()", &[])]),
    }
}
fn ask(h: B256, v: u8, r: B256, s: B256) -> Result<Option<Address>, String> {
    let e = expect_rec(h, v, r, s);
    let mut wd = World::default();
    wd.acct(T).code = native!(Rec);
    with(|vm| vm.world = wd);
    let out = host::tx(addr(9), T, U256::ZERO, cd("recover(bytes32,uint8,bytes32,bytes32)", &[b32(h), w(v as u64), b32(r), b32(s)]));
    compare(&format!("recover({h},{v},{r},{s})"), &out, &e)?;
    Ok(out.ok.then(|| Address::from_slice(&out.data[12..32])))
}
fn c27(c: &mut Check) {
    let nk = c.q(6u8, 16);
    let mut digests: Vec<B256> = vec![B256::ZERO, B256::repeat_byte(0xff), B256::with_last_byte(1), B256::from(sig::N_ORDER), B256::from(sig::N_ORDER - n(1))];
    for i in 0..c.q(8u8, 32) {
        digests.push(keccak(&[i]));
    }
    let cases: Vec<(u8, B256)> = (0..nk).flat_map(|k| digests.iter().map(move |d| (k, *d))).collect();
    let order = sig::N_ORDER;
    c.enumerate("signed digests", "keys x digests: true signer, every recovery identifier 0..255, the malleable twin, s and r at all limits", &cases, |(k, d)| {
        let (v, r, s) = sig::sign(*k, *d);
        let me = sig::key_addr(*k);
        if ask(*d, v, r, s)? != Some(me) {
            return Err(format!("the signer of {d} was not recovered"));
        }
        for vv in 0..=255u8 {
            let g = ask(*d, vv, r, s)?;
            if g == Some(me) && vv != v {
                return Err(format!("v={vv} also yields the signer"));
            }
        }
        // the malleable twin
        let s2 = B256::from(order - U256::from_be_bytes(s.0));
        for vv in [27u8, 28] {
            if ask(*d, vv, r, s2)?.is_some() {
                return Err("malleable signature accepted".into());
            }
        }
        for x in [n(0), n(1), sig::N_HALF - n(1), sig::N_HALF, sig::N_HALF + n(1), order - n(1), order, order + n(1), U256::MAX] {
            for vv in [0u8, 1, 26, 27, 28, 29, 255] {
                ask(*d, vv, r, B256::from(x))?;
                ask(*d, vv, B256::from(x), s)?;
                ask(*d, vv, B256::from(x), B256::from(x))?;
            }
        }
        Ok(true)
    });
    let flips: Vec<(u8, usize)> = (0..c.q(5u8, 20)).flat_map(|k| (0..768).map(move |i| (k, i))).collect();
    c.enumerate("single-bit changes", "every single-bit change of digest, r and s of signed digests: never the signer", &flips, |(k, i)| {
        let d = keccak(b"message");
        let (v, r, s) = sig::sign(*k, d);
        let mut p = [d, r, s];
        p[i / 256].0[(i % 256) / 8] ^= 1 << (i % 8);
        for vv in [27u8, 28] {
            let g = ask(p[0], vv, p[1], p[2])?;
            if g == Some(sig::key_addr(*k)) && (vv == v || i / 256 > 0) {
                return Err("a changed signature still yields the signer".into());
            }
        }
        Ok(true)
    });
}

// ---------------------------------------------------------------------- C28
macro_rules! dom {
    ($n:ident, $a:expr, $b:expr) => {
        struct $n;
        impl IEip712 for $n {
            const NAME: &'static str = $a;
            const VERSION: &'static str = $b;
        }
    };
}
dom!(D0, "Token", "1");
dom!(D1, "Token", "2");
dom!(D2, "Token1", "");
dom!(D3, "", "Token1");
dom!(D4, "", "");
dom!(D5, "A name that is considerably longer than one thirty-two byte word, with \u{20ac}", "1");
dom!(D6, "token", "1");
dom!(D7, "Token", "1.0.0-a-version-that-is-longer-than-a-word");
fn run_dom<D: IEip712>(d: D, input: Vec<u8>) -> Result<Vec<u8>, Vec<u8>> {
    match input[0] {
        0 => Ok(d.domain_separator_v4().to_vec()),
        1 => Ok(d.hash_typed_data_v4(B256::from_slice(&input[1..33])).to_vec()),
        _ => {
            let (f, na, ve, ch, me, salt, ext) = d.eip712_domain();
            let mut fw = [0u8; 32];
            fw[0] = f[0];
            Ok(enc(&[b32(B256::from(fw)), s(&na), s(&ve), u(ch), a(me), b32(B256::from(salt)), us(&ext)]))
        }
    }
}
fn c28(c: &mut Check) {
    type F = fn(Vec<u8>) -> Result<Vec<u8>, Vec<u8>>;
    let doms: Vec<(&str, &str, F)> = vec![
        (D0::NAME, D0::VERSION, |i| run_dom(D0, i)),
        (D1::NAME, D1::VERSION, |i| run_dom(D1, i)),
        (D2::NAME, D2::VERSION, |i| run_dom(D2, i)),
        (D3::NAME, D3::VERSION, |i| run_dom(D3, i)),
        (D4::NAME, D4::VERSION, |i| run_dom(D4, i)),
        (D5::NAME, D5::VERSION, |i| run_dom(D5, i)),
        (D6::NAME, D6::VERSION, |i| run_dom(D6, i)),
        (D7::NAME, D7::VERSION, |i| run_dom(D7, i)),
    ];
    let mut chains: Vec<u64> = vec![0, 1, 10, 255, 256, 42161, u32::MAX as u64, 1 << 32, u64::MAX - 1, u64::MAX];
    for i in 1..64 {
        chains.push(1 << i);
    }
    chains.sort();
    chains.dedup();
    let mut mes: Vec<Address> = vec![Address::with_last_byte(0x90), Address::new([0xff; 20]), T];
    for i in 0..20 {
        let mut x = T;
        x[i] ^= 0x10;
        mes.push(x);
    }
    let hashes: Vec<B256> = [B256::ZERO, B256::repeat_byte(0xff), keccak(b"struct"), B256::with_last_byte(1)].into_iter().chain((0..32).map(|i| {
        let mut h = keccak(b"struct");
        h[i] ^= 1;
        h
    })).collect();
    let cases: Vec<(usize, u64, Address)> = (0..doms.len()).flat_map(|d| {
        let (ch, me) = (chains.clone(), mes.clone());
        ch.into_iter().flat_map(move |x| me.clone().into_iter().map(move |y| (d, x, y)))
    }).collect();
    let seen: std::sync::Mutex<BTreeMap<B256, (usize, u64, Address, B256)>> = Default::default();
    c.enumerate("domains", "8 name/version pairs (empty, swapped, long, non-ASCII) x 70+ chain identifiers x 23 contract addresses; separator, reported fields, digests of struct hashes; all distinct", &cases, |(d, ch, me)| {
        let (na, ve, f) = &doms[*d];
        let mut wd = World::default();
        wd.acct(*me).code = Code::Native(*f);
        wd.chain_id = *ch;
        with(|vm| vm.world = wd);
        let sep = sig::domain(na, ve, *ch, *me);
        let out = host::view(addr(9), *me, vec![0]);
        if !out.ok || out.data != sep.to_vec() {
            return Err(format!("domain separator of {na:?},{ve:?},{ch},{me} is {} instead of {sep}", show(&out.data)));
        }
        let mut fw = [0u8; 32];
        fw[0] = 0x0f;
        let want = enc(&[b32(B256::from(fw)), s(na), s(ve), w(*ch), a(*me), b32(B256::ZERO), us(&[])]);
        let out = host::view(addr(9), *me, vec![2]);
        if !out.ok || out.data != want {
            return Err(format!("reported domain of {na:?},{ve:?},{ch},{me}: {}", show(&out.data)));
        }
        let mut mine = vec![(sep, B256::ZERO)];
        for (i, h) in hashes.iter().enumerate() {
            if i >= 4 && (*ch != 1 || *me != T) {
                break;
            }
            let mut input = vec![1];
            input.extend(h.0);
            let out = host::view(addr(9), *me, input);
            let dg = sig::typed(sep, *h);
            if !out.ok || out.data != dg.to_vec() {
                return Err(format!("digest of {h} is {} instead of {dg}", show(&out.data)));
            }
            mine.push((dg, *h));
        }
        let mut g = seen.lock().unwrap();
        for (x, h) in mine {
            if let Some(o) = g.insert(x, (*d, *ch, *me, h)) {
                return Err(format!("{o:?} and {:?} share {x}", (*d, *ch, *me, h)));
            }
        }
        Ok(true)
    });
    let pairs: Vec<(B256, B256)> = hashes.iter().flat_map(|x| hashes.iter().map(move |y| (*x, *y))).collect();
    c.enumerate("typed-data hash", "all ordered pairs of 36 words", &pairs, |(x, y)| {
        if to_typed_data_hash(&x.0, &y.0) == sig::typed(*x, *y) {
            Ok(true)
        } else {
            Err(format!("to_typed_data_hash({x},{y})"))
        }
    });
}

fn main() {
    host::install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    c.assume("the host model of the Stylus VM (storage cache, calls, reverts, logs) is faithful");
    match id.as_str() {
        "C24" => c24(&mut c),
        "C25" => c25(&mut c),
        "C26" => c26(&mut c),
        "C27" => {
            c.assume("the ecrecover precompile is modelled by k256");
            c27(&mut c)
        }
        "C28" => c28(&mut c),
        _ => panic!("unknown id"),
    }
    c.finish()
}
