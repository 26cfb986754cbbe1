//! C36: Poseidon2 permutation and sponge against an independent implementation
//! (matrices written out, round constants regenerated with the Grain LFSR).
use mcc::report::Check;
use mcc::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::arithmetic::uint::Uint;
use openzeppelin_crypto::field::fp::{Fp, FpParams};
use openzeppelin_crypto::field::instance::*;
use openzeppelin_crypto::field::prime::PrimeField;
use openzeppelin_crypto::poseidon2::instance::{babybear::*, bls12::*, bn256::*, goldilocks::*, pallas::*, vesta::*};
use openzeppelin_crypto::poseidon2::params::PoseidonParams;
use openzeppelin_crypto::poseidon2::Poseidon2;
use openzeppelin_crypto::{fp_from_num, from_num};

/// One-limb primes small enough that all states can be enumerated.
struct P11;
impl FpParams<1> for P11 {
    const MODULUS: Uint<1> = from_num!("11");
    const GENERATOR: Fp<P11, 1> = fp_from_num!("2");
}
type Fp11 = Fp<P11, 1>;
struct P5;
impl FpParams<1> for P5 {
    const MODULUS: Uint<1> = from_num!("5");
    const GENERATOR: Fp<P5, 1> = fp_from_num!("2");
}
type Fp5 = Fp<P5, 1>;

// ---------------------------------------------------------------- reference
#[derive(Clone)]
struct Ref {
    p: BigUint,
    t: usize,
    d: u32,
    cap: usize,
    rf: usize,
    rp: usize,
    /// constants in order of use
    rc: Vec<BigUint>,
    me: Vec<Vec<BigUint>>,
    mi: Vec<Vec<BigUint>>,
}
fn grain(p: &BigUint, t: usize, rf: usize, rp: usize) -> Vec<BigUint> {
    let n = p.bits() as usize;
    let mut s: Vec<u8> = vec![];
    for (v, w) in [(1usize, 2), (0, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)] {
        for i in (0..w).rev() {
            s.push((v >> i & 1) as u8);
        }
    }
    let mut pos = 0;
    let mut bit = move || {
        let at = |k: usize| (pos + k) % 80;
        let x = s[at(62)] ^ s[at(51)] ^ s[at(38)] ^ s[at(23)] ^ s[at(13)] ^ s[at(0)];
        s[pos] = x;
        pos = (pos + 1) % 80;
        x
    };
    for _ in 0..160 {
        bit();
    }
    let mut shrunk = move || loop {
        let a = bit();
        let c = bit();
        if a == 1 {
            return c;
        }
    };
    (0..rf * t + rp)
        .map(|_| loop {
            let mut v = BigUint::zero();
            for _ in 0..n {
                v = v * 2u32 + shrunk();
            }
            if v < *p {
                return v;
            }
        })
        .collect()
}
fn b(x: u64) -> BigUint {
    BigUint::from(x)
}
fn external(t: usize) -> Vec<Vec<BigUint>> {
    const M4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
    (0..t)
        .map(|i| {
            (0..t)
                .map(|j| match t {
                    2 | 3 => b(1 + (i == j) as u64),
                    4 => b(M4[i][j]),
                    _ => b(M4[i % 4][j % 4] * (1 + (i / 4 == j / 4) as u64)),
                })
                .collect()
        })
        .collect()
}
fn internal(t: usize, diag: &[BigUint]) -> Vec<Vec<BigUint>> {
    let fixed: Vec<BigUint> = match t {
        2 => vec![b(1), b(2)],
        3 => vec![b(1), b(1), b(2)],
        _ => diag.to_vec(),
    };
    (0..t).map(|i| (0..t).map(|j| if i == j { &fixed[i] + 1u32 } else { b(1) }).collect()).collect()
}
impl Ref {
    fn new(p: &BigUint, t: usize, d: u32, cap: usize, rf: usize, rp: usize, diag: &[BigUint], rc: Option<Vec<BigUint>>) -> Self {
        let rc = rc.unwrap_or_else(|| grain(p, t, rf, rp));
        Ref { p: p.clone(), t, d, cap, rf, rp, rc, me: external(t), mi: internal(t, diag) }
    }
    fn mul(&self, m: &[Vec<BigUint>], s: &[BigUint]) -> Vec<BigUint> {
        m.iter().map(|r| r.iter().zip(s).map(|(a, b)| a * b).sum::<BigUint>() % &self.p).collect()
    }
    fn permute(&self, s: &[BigUint]) -> Vec<BigUint> {
        let mut s = self.mul(&self.me, s);
        let mut rc = self.rc.iter();
        let e = BigUint::from(self.d);
        for r in 0..self.rf + self.rp {
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            for x in s.iter_mut().take(if full { self.t } else { 1 }) {
                *x = (&*x + rc.next().unwrap()).modpow(&e, &self.p);
            }
            s = self.mul(if full { &self.me } else { &self.mi }, &s);
        }
        s
    }
}
#[derive(Clone)]
struct Sponge<'a> {
    r: &'a Ref,
    cap: usize,
    s: Vec<BigUint>,
    squeezing: bool,
    at: usize,
}
impl<'a> Sponge<'a> {
    fn new(r: &'a Ref, cap: usize) -> Self {
        Sponge { r, cap, s: vec![BigUint::zero(); r.t], squeezing: false, at: cap }
    }
    fn permute(&mut self) {
        self.s = self.r.permute(&self.s);
    }
    fn absorb(&mut self, x: &BigUint) {
        if self.at == self.r.t {
            self.permute();
            self.at = self.cap;
        }
        self.s[self.at] = (&self.s[self.at] + x) % &self.r.p;
        self.at += 1;
    }
    fn squeeze(&mut self) -> BigUint {
        if !self.squeezing || self.at == self.r.t {
            self.permute();
            self.squeezing = true;
            self.at = self.cap;
        }
        self.at += 1;
        self.s[self.at - 1].clone()
    }
}

// ---------------------------------------------------------------- real side
/// The same instance with no capacity: the whole state can be set and read.
struct Whole<P>(std::marker::PhantomData<P>);
impl<F: PrimeField, P: PoseidonParams<F>> PoseidonParams<F> for Whole<P> {
    const T: usize = P::T;
    const D: u8 = P::D;
    const CAPACITY: usize = 0;
    const ROUNDS_F: usize = P::ROUNDS_F;
    const ROUNDS_P: usize = P::ROUNDS_P;
    const MAT_INTERNAL_DIAG_M_1: &'static [F] = P::MAT_INTERNAL_DIAG_M_1;
    const ROUND_CONSTANTS: &'static [&'static [F]] = P::ROUND_CONSTANTS;
}
fn val<P: FpParams<N>, const N: usize>(x: &Fp<P, N>) -> BigUint {
    big(x.into_bigint().as_limbs())
}
fn el<P: FpParams<N>, const N: usize>(x: &BigUint) -> Fp<P, N> {
    Fp::<P, N>::from_bigint(Uint::new(limbs::<N>(x)))
}

fn permutation<I: PoseidonParams<Fp<P, N>>, P: FpParams<N>, const N: usize>(r: &Ref, s: &[BigUint]) -> Result<(), String> {
    let want = r.permute(s);
    let els: Vec<Fp<P, N>> = s.iter().map(el).collect();
    let mut h = Poseidon2::<Whole<I>, Fp<P, N>>::new();
    h.absorb_batch(&els);
    let got: Vec<BigUint> = h.squeeze_batch(r.t).iter().map(val).collect();
    same!(format!("permutation of {s:?}"), got, want);
    Ok(())
}
/// states: the full product of a small alphabet for narrow instances, every
/// vector with at most two positions off a uniform background for wide ones
fn states(r: &Ref, deep: bool) -> Vec<Vec<BigUint>> {
    let p = &r.p;
    let mut al = vec![b(0), b(1), p - 1u32, b(2), p / 2u32, p - 2u32, (p + 1u32) / 2u32, BigUint::from_bytes_be(&[0xa5; 40]) % p, (BigUint::one() << (p.bits() - 1)) % p];
    al.dedup();
    let mut v = vec![];
    if r.t <= 4 {
        let k = match (r.t, deep) {
            (2, false) => 9,
            (3, false) => 7,
            (4, false) => 4,
            (2, true) | (3, true) => 9,
            _ => 7,
        };
        for w in words(k, r.t) {
            v.push(w.iter().map(|i| al[*i].clone()).collect());
        }
        return v;
    }
    let (k, bgs) = if deep { (7, 3) } else { (4, 2) };
    for bg in 0..bgs {
        for i in 0..r.t {
            for x in 0..k {
                let mut s = vec![al[bg].clone(); r.t];
                s[i] = al[x].clone();
                v.push(s.clone());
                for j in 0..i {
                    if deep || x == 1 {
                        s[j] = al[2].clone();
                        v.push(s.clone());
                        s[j] = al[bg].clone();
                    }
                }
            }
        }
    }
    v
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Absorb(usize),
    AbsorbBatch(usize),
    Permute,
    Squeeze,
    SqueezeBatch(usize),
}
fn run<I: PoseidonParams<Fp<P, N>>, P: FpParams<N>, const N: usize>(r: &Ref, cap: usize, ops: &[Op]) -> Result<bool, String> {
    let mut h = Poseidon2::<I, Fp<P, N>>::default();
    let mut m = Sponge::new(r, cap);
    let mut k = 0u64;
    let mut next = |i: usize| {
        k += 1;
        match i {
            0 => b(0),
            1 => (&r.p - k % 5 - 1u32) % &r.p,
            _ => (b(0x1234_5678_9abc) * k + i as u32) % &r.p,
        }
    };
    for op in ops {
        match op {
            Op::Absorb(i) => {
                let x = next(*i);
                if m.squeezing {
                    if quiet(|| h.absorb(&el(&x))).is_some() {
                        return Err("absorbing while squeezing was accepted".into());
                    }
                    return Ok(false);
                }
                h.absorb(&el(&x));
                m.absorb(&x);
            }
            Op::AbsorbBatch(n) => {
                let xs: Vec<BigUint> = (0..*n).map(|i| next(i + 1)).collect();
                let es: Vec<Fp<P, N>> = xs.iter().map(el).collect();
                if m.squeezing && *n > 0 {
                    if quiet(|| h.absorb_batch(&es)).is_some() {
                        return Err("absorbing a batch while squeezing was accepted".into());
                    }
                    return Ok(false);
                }
                if !m.squeezing {
                    h.absorb_batch(&es);
                    xs.iter().for_each(|x| m.absorb(x));
                }
            }
            Op::Permute => {
                h.permute();
                m.permute();
            }
            Op::Squeeze => same!("squeeze", val(&h.squeeze()), m.squeeze()),
            Op::SqueezeBatch(n) => {
                let got: Vec<BigUint> = h.squeeze_batch(*n).iter().map(val).collect();
                let want: Vec<BigUint> = (0..*n).map(|_| m.squeeze()).collect();
                same!("squeeze_batch", got, want);
            }
        }
    }
    for _ in 0..2 {
        same!("squeeze at the end", val(&h.squeeze()), m.squeeze());
    }
    Ok(true)
}
/// every way of absorbing n elements as a batch, then singles, then a batch and
/// squeezing m elements likewise
fn schedules(r: &Ref, cap: usize, deep: bool) -> Vec<Vec<Op>> {
    let rate = r.t - cap;
    let (na, ns) = if rate <= 4 { (3 * rate + 2, 2 * rate + 2) } else if deep { (2 * rate + 2, rate + 2) } else { (rate + 2, rate + 1) };
    let mut v = vec![];
    for n in 0..=na {
        for cut in 0..=n {
            if rate > 4 && !deep && ![0, 1, n / 2, n].contains(&cut) {
                continue;
            }
            for m in 0..=ns {
                if rate > 4 && ![0, 1, rate - 1, rate, rate + 1, ns].contains(&m) {
                    continue;
                }
                let mut ops = vec![Op::AbsorbBatch(cut)];
                ops.extend((cut..n).map(Op::Absorb));
                let c2 = m * (cut + 1) / (n + 1);
                ops.push(Op::SqueezeBatch(c2));
                ops.extend((c2..m).map(|_| Op::Squeeze));
                v.push(ops);
            }
        }
    }
    v
}
fn histories(rate: usize, depth: usize) -> Vec<Vec<Op>> {
    let al = [Op::Absorb(0), Op::Absorb(1), Op::Absorb(2), Op::AbsorbBatch(0), Op::AbsorbBatch(rate), Op::AbsorbBatch(rate + 1), Op::Permute, Op::Squeeze, Op::SqueezeBatch(0), Op::SqueezeBatch(rate)];
    (1..=depth).flat_map(|d| words(al.len(), d)).map(|w| w.into_iter().map(|i| al[i]).collect()).collect()
}
fn used<I: PoseidonParams<Fp<P, N>>, P: FpParams<N>, const N: usize>(r: &Ref) -> Result<(), String> {
    same!("state size", (I::T, Poseidon2::<I, Fp<P, N>>::state_size()), (r.t, r.t));
    same!("capacity", I::CAPACITY, r.cap);
    same!("modulus", big(P::MODULUS.as_limbs()), r.p);
    Ok(())
}
fn instance<I: PoseidonParams<Fp<P, N>> + Sync, P: FpParams<N> + Sync, const N: usize>(ck: &mut Check, name: &str, r: &Ref) {
    ck.fact(&format!("{name}: parameters"), used::<I, P, N>(r));
    if ck.failed() {
        return;
    }
    let deep = ck.thorough();
    let st = states(r, deep);
    ck.enumerate(&format!("{name}: permutation"), "full state set and read; boundary elements in all positions (full product up to width 4, pairs of positions beyond)", &st, |s| permutation::<I, P, N>(r, s).map(|_| true));
    let sc = schedules(r, r.cap, deep);
    ck.enumerate(&format!("{name}: sponge schedules"), "all numbers of absorbed and squeezed elements beyond one or more rates, cut into batches and singles", &sc, |o| run::<I, P, N>(r, r.cap, o));
    // messages much longer than the rate, in one batch, in two and one by one
    let mut long: Vec<Vec<Op>> = vec![];
    for n in [31usize, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300] {
        if r.t > 4 && n > 130 && !deep {
            continue;
        }
        long.push(vec![Op::AbsorbBatch(n)]);
        long.push(vec![Op::Absorb(1), Op::AbsorbBatch(n - 1), Op::SqueezeBatch(2)]);
        long.push((0..n).map(Op::Absorb).collect());
        long.push(vec![Op::Absorb(2), Op::SqueezeBatch(n)]);
        long.push(std::iter::once(Op::Absorb(2)).chain((0..n).map(|_| Op::Squeeze)).collect());
    }
    ck.enumerate(&format!("{name}: long messages"), "absorbing and squeezing up to 300 (wide instances: 129) elements in batches and singly, around powers of two", &long, |o| run::<I, P, N>(r, r.cap, o));
    let hs = histories(r.t - r.cap, ck.q(if r.t <= 4 { 3 } else { 2 }, if r.t <= 4 { 4 } else { 3 }));
    ck.enumerate(&format!("{name}: sponge histories"), "all sequences of absorb, absorb_batch, permute, squeeze, squeeze_batch", &hs, |o| run::<I, P, N>(r, r.cap, o));
}

// ------------------------------------------------------- parameters of our own
const fn mix(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_add(i.wrapping_add(1).wrapping_mul(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
macro_rules! custom {
    ($name:ident, $f:ty, $p:expr, $t:literal, $d:literal, $cap:literal, $rf:literal, $rp:literal) => {
        struct $name;
        impl $name {
            const DIAG: [$f; $t] = {
                let mut a = [Fp::new(Uint::new([0])); $t];
                let mut i = 0;
                while i < $t {
                    a[i] = Fp::new(Uint::new([mix($t, i as u64) % $p]));
                    i += 1;
                }
                a
            };
            const RC: [[$f; $t]; $rf + $rp] = {
                let mut a = [[Fp::new(Uint::new([0])); $t]; $rf + $rp];
                let mut i = 0;
                while i < $rf + $rp {
                    let mut j = 0;
                    while j < $t {
                        a[i][j] = Fp::new(Uint::new([mix(1000 + $t, (i * 64 + j) as u64) % $p]));
                        j += 1;
                    }
                    i += 1;
                }
                a
            };
            const ROWS: [&'static [$f]; $rf + $rp] = {
                let all: &'static [[$f; $t]; $rf + $rp] = &Self::RC;
                let mut a: [&'static [$f]; $rf + $rp] = [&[]; $rf + $rp];
                let mut i = 0;
                while i < $rf + $rp {
                    a[i] = &all[i];
                    i += 1;
                }
                a
            };
            fn reference() -> Ref {
                let diag: Vec<BigUint> = (0..$t).map(|i| b(mix($t, i as u64) % $p)).collect();
                let mut rc = vec![];
                for i in 0..$rf + $rp {
                    let partial = i >= $rf / 2 && i < $rf / 2 + $rp;
                    for j in 0..if partial { 1 } else { $t } {
                        rc.push(b(mix(1000 + $t, (i * 64 + j) as u64) % $p));
                    }
                }
                Ref::new(&b($p), $t, $d, $cap, $rf, $rp, &diag, Some(rc))
            }
        }
        impl PoseidonParams<$f> for $name {
            const T: usize = $t;
            const D: u8 = $d;
            const CAPACITY: usize = $cap;
            const ROUNDS_F: usize = $rf;
            const ROUNDS_P: usize = $rp;
            const MAT_INTERNAL_DIAG_M_1: &'static [$f] = &Self::DIAG;
            const ROUND_CONSTANTS: &'static [&'static [$f]] = &Self::ROWS;
        }
    };
}
const GOLD: u64 = 0xffff_ffff_0000_0001;
const BB: u64 = 2013265921;
custom!(T2, FpGoldiLocks, GOLD, 2, 7, 1, 4, 3);
custom!(T3, FpBabyBear, BB, 3, 7, 2, 2, 5);
custom!(T4, FpGoldiLocks, GOLD, 4, 7, 2, 4, 2);
custom!(T8, FpGoldiLocks, GOLD, 8, 11, 4, 4, 3);
custom!(T12, FpBabyBear, BB, 12, 11, 3, 4, 3);
custom!(T16, FpBabyBear, BB, 16, 7, 8, 4, 3);
custom!(T20, FpGoldiLocks, GOLD, 20, 7, 4, 4, 3);
custom!(T24, FpGoldiLocks, GOLD, 24, 7, 12, 4, 3);
custom!(NoPartial, FpGoldiLocks, GOLD, 4, 7, 0, 6, 0);
custom!(NoFull, FpBabyBear, BB, 8, 7, 1, 0, 6);
custom!(Small2, Fp11, 11, 2, 3, 1, 4, 5);
custom!(Small3, Fp11, 11, 3, 3, 1, 4, 5);
custom!(Small4, Fp11, 11, 4, 7, 2, 4, 3);
custom!(Small8, Fp5, 5, 8, 3, 4, 2, 2);

/// All states of a tiny field: equal to the reference and a bijection.
fn complete<I: PoseidonParams<Fp<P, 1>> + Sync, P: FpParams<1> + Sync>(ck: &mut Check, name: &str, r: &Ref) {
    let p = P::MODULUS.as_limbs()[0] as usize;
    let all: Vec<Vec<BigUint>> = words(p, r.t).into_iter().map(|w| w.into_iter().map(|i| b(i as u64)).collect()).collect();
    ck.enumerate(&format!("{name}: every state"), "all states of the field", &all, |s| permutation::<I, P, 1>(r, s).map(|_| true));
    let hs = histories(r.t - r.cap, ck.q(if r.t == 8 { 3 } else { 4 }, 5));
    ck.enumerate(&format!("{name}: sponge histories"), "all sequences of absorb, absorb_batch, permute, squeeze, squeeze_batch", &hs, |o| run::<I, P, 1>(r, r.cap, o));
}

fn hex(v: &[&str]) -> Vec<BigUint> {
    v.iter().map(|x| BigUint::parse_bytes(x.as_bytes(), 16).unwrap()).collect()
}
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut ck = Check::new(&id);
    ck.assume("round constants of the predefined instances are regenerated with the Grain LFSR of the Poseidon paper; the internal diagonals of widths 4, 12 and 24 are the published literals");
    let bb = b(BB);
    let gold = b(GOLD);
    let bls = &hex(&["73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"])[0];
    let bn = &hex(&["30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001"])[0];
    let pallas = &hex(&["40000000000000000000000000000000224698fc094cf91b992d30ed00000001"])[0];
    let vesta = &hex(&["40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"])[0];
    let d24 = hex(&["409133f0", "1667a8a1", "6a6c7b6", "6f53160e", "273b11d1", "3176c5d", "72f9bbf9", "73ceba91", "5cdef81d", "1393285", "46daee06", "65d7ba6", "52d72d6f", "5dd05e0", "3bab4b63", "6ada3842", "2fc5fbec", "770d61b0", "5715aae9", "3ef0e90", "75b6c770", "242adf5f", "d0ca4c", "36c0e388"]);
    let d12 = hex(&["c3b6c08e23ba9300", "d84b5de94a324fb6", "d0c371c5b35b84f", "7964f570e7188037", "5daf18bbd996604b", "6743bc47b9595257", "5528b9362c59bb70", "ac45e25b7127b68b", "a2077d7dfbb606b5", "f3faac6faee378ae", "c6388b51545e883", "d27dbb6944917b60"]);
    let d4 = hex(&["7564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d", "6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4", "419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2", "3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787"]);
    instance::<BabyBear24Params, _, 1>(&mut ck, "BabyBear t=24", &Ref::new(&bb, 24, 7, 4, 8, 21, &d24, None));
    instance::<Goldilocks12Params, _, 1>(&mut ck, "Goldilocks t=12", &Ref::new(&gold, 12, 7, 4, 8, 22, &d12, None));
    instance::<BLS2Params, _, 4>(&mut ck, "BLS12-381 t=2", &Ref::new(bls, 2, 5, 1, 8, 56, &[], None));
    instance::<BLS3Params, _, 4>(&mut ck, "BLS12-381 t=3", &Ref::new(bls, 3, 5, 1, 8, 56, &[], None));
    instance::<BLS4Params, _, 4>(&mut ck, "BLS12-381 t=4", &Ref::new(bls, 4, 5, 1, 8, 56, &d4, None));
    instance::<BN256Params, _, 4>(&mut ck, "BN256 t=3", &Ref::new(bn, 3, 5, 1, 8, 56, &[], None));
    instance::<PallasParams, _, 4>(&mut ck, "Pallas t=3", &Ref::new(pallas, 3, 5, 1, 8, 56, &[], None));
    instance::<VestaParams, _, 4>(&mut ck, "Vesta t=3", &Ref::new(vesta, 3, 5, 1, 8, 56, &[], None));
    instance::<T2, _, 1>(&mut ck, "custom t=2", &T2::reference());
    instance::<T3, _, 1>(&mut ck, "custom t=3", &T3::reference());
    instance::<T4, _, 1>(&mut ck, "custom t=4", &T4::reference());
    instance::<T8, _, 1>(&mut ck, "custom t=8", &T8::reference());
    instance::<T12, _, 1>(&mut ck, "custom t=12", &T12::reference());
    instance::<T16, _, 1>(&mut ck, "custom t=16", &T16::reference());
    instance::<T20, _, 1>(&mut ck, "custom t=20", &T20::reference());
    instance::<T24, _, 1>(&mut ck, "custom t=24", &T24::reference());
    instance::<NoPartial, _, 1>(&mut ck, "custom without partial rounds and capacity", &NoPartial::reference());
    instance::<NoFull, _, 1>(&mut ck, "custom without full rounds", &NoFull::reference());
    complete::<Small2, P11>(&mut ck, "field of 11, t=2", &Small2::reference());
    complete::<Small3, P11>(&mut ck, "field of 11, t=3", &Small3::reference());
    complete::<Small4, P11>(&mut ck, "field of 11, t=4", &Small4::reference());
    complete::<Small8, P5>(&mut ck, "field of 5, t=8", &Small8::reference());
    ck.finish()
}
