//! C34: prime fields against integer arithmetic modulo the prime.
use mcc::report::Check;
use mcc::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::arithmetic::uint::Uint;
use openzeppelin_crypto::field::fp::{Fp, FpParams};
use openzeppelin_crypto::field::group::AdditiveGroup;
use openzeppelin_crypto::field::instance::*;
use openzeppelin_crypto::field::prime::PrimeField;
use openzeppelin_crypto::field::Field;
use openzeppelin_crypto::{fp_from_hex, fp_from_num, from_hex, from_num};
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

macro_rules! field {
    ($name:ident, $n:literal, $m:literal, $g:literal) => {
        struct $name;
        impl FpParams<$n> for $name {
            const MODULUS: Uint<$n> = from_num!($m);
            const GENERATOR: Fp<$name, $n> = fp_from_num!($g);
        }
    };
}
macro_rules! fieldx {
    ($name:ident, $n:literal, $m:literal, $g:literal) => {
        struct $name;
        impl FpParams<$n> for $name {
            const MODULUS: Uint<$n> = from_hex!($m);
            const GENERATOR: Fp<$name, $n> = fp_from_hex!($g);
        }
    };
}
field!(P3, 1, "3", "2");
field!(P5, 1, "5", "2");
field!(P7, 1, "7", "3");
field!(P11, 1, "11", "2");
field!(P13, 1, "13", "2");
field!(P17, 1, "17", "3");
field!(P31, 1, "31", "3");
field!(P61, 1, "61", "2");
field!(P97, 1, "97", "5");
field!(P127, 1, "127", "3");
field!(P251, 1, "251", "6");
field!(P257, 1, "257", "3");
field!(P1009, 1, "1009", "11");
field!(P3w2, 2, "3", "2");
field!(P7w2, 2, "7", "3");
field!(P61w2, 2, "61", "2");
field!(P251w3, 3, "251", "6");
field!(P13w4, 4, "13", "2");
field!(P97w4, 4, "97", "5");
field!(P17w6, 6, "17", "3");
field!(P31w7, 7, "31", "3");
// full limbs: no spare bit
fieldx!(F64a, 1, "FFFFFFFFFFFFFFC5", "2"); // 2^64 - 59
fieldx!(F64b, 1, "800000000000001D", "3"); // 2^63 + 29
fieldx!(F63, 1, "7FFFFFFFFFFFFFE7", "2"); // 2^63 - 25
fieldx!(F32, 1, "FFFFFFFB", "2"); // 2^32 - 5
fieldx!(F33, 1, "10000000F", "5"); // 2^32 + 15
fieldx!(F128a, 2, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFF61", "2"); // 2^128 - 159
fieldx!(F127, 2, "7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "2B"); // 2^127 - 1
fieldx!(F65, 2, "1000000000000000D", "2"); // 2^64 + 13
fieldx!(F192, 3, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFFFFFFFFFFFF", "B"); // P-192
fieldx!(Secp, 4, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", "3");
fieldx!(SecpN, 4, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", "7");
fieldx!(P256r1, 4, "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF", "6");
fieldx!(C25519, 4, "7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFED", "2");
fieldx!(Bls381, 6, "1A0111EA397FE69A4B1BA7B6434BACD764774B84F38512BF6730D2A0F6B0F6241EABFFFEB153FFFFB9FEFFFFFFFFAAAB", "2");
fieldx!(P384, 6, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFFFF0000000000000000FFFFFFFF", "13");
fieldx!(P448, 7, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "7");

fn val<P: FpParams<N>, const N: usize>(x: &Fp<P, N>) -> BigUint {
    big(x.into_bigint().as_limbs())
}
fn el<P: FpParams<N>, const N: usize>(x: &BigUint) -> Fp<P, N> {
    Fp::<P, N>::from_bigint(Uint::new(limbs::<N>(x)))
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// the element is canonical and stands for `want`
fn is<P: FpParams<N>, const N: usize>(what: &str, x: Fp<P, N>, want: &BigUint) -> Result<(), String> {
    same!(what, val(&x), *want);
    let y: Fp<P, N> = el(want);
    if x != y || hash(&x) != hash(&y) || x.is_ge_modulus() || format!("{x:?}") != format!("{y:?}") {
        return Err(format!("{what}: {want} is represented in two ways"));
    }
    Ok(())
}

fn unary<P: FpParams<N>, const N: usize>(a: &BigUint) -> Result<(), String> {
    let p = big(P::MODULUS.as_limbs());
    let x = el::<P, N>(a);
    is("from_bigint", x, a)?;
    is("new", Fp::<P, N>::new(Uint::new(limbs::<N>(a))), a)?;
    is("From<Uint>", Fp::<P, N>::from(Uint::new(limbs::<N>(a))), a)?;
    same!("Into<Uint>", big(Uint::<N>::from(x).as_limbs()), *a);
    same!("is_zero", (x.is_zero(), x.is_one()), (a.is_zero(), a.is_one()));
    let n = (&p - a) % &p;
    is("neg", -x, &n)?;
    let mut t = x;
    let r = *t.neg_in_place();
    is("neg_in_place", t, &n)?;
    is("neg_in_place result", r, &n)?;
    let d = (a + a) % &p;
    is("double", x.double(), &d)?;
    let mut t = x;
    let r = *t.double_in_place();
    is("double_in_place", t, &d)?;
    is("double_in_place result", r, &d)?;
    let s = (a * a) % &p;
    is("square", x.square(), &s)?;
    let mut t = x;
    let r = *t.square_in_place();
    is("square_in_place", t, &s)?;
    is("square_in_place result", r, &s)?;
    match x.inverse() {
        None => same!("no inverse", a.is_zero(), true),
        Some(i) => {
            same!("inverse exists", a.is_zero(), false);
            let iv = a.modpow(&(&p - 2u32), &p);
            is("inverse", i, &iv)?;
            let mut t = x;
            let r = t.inverse_in_place().copied();
            is("inverse_in_place", t, &iv)?;
            is("inverse_in_place result", r.ok_or("none")?, &iv)?;
        }
    }
    if a.is_zero() {
        let mut t = x;
        same!("inverse_in_place of zero", t.inverse_in_place().is_none(), true);
        is("zero after inverse_in_place", t, a)?;
    }
    for e in (0u64..20).chain([255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX]) {
        let w = a.modpow(&BigUint::from(e), &p);
        if e < 256 {
            is("pow u8", x.pow(e as u8), &w)?;
        }
        if e < 65536 {
            is("pow u16", x.pow(e as u16), &w)?;
        }
        if e <= u32::MAX as u64 {
            is("pow u32", x.pow(e as u32), &w)?;
        }
        is("pow u64", x.pow(e), &w)?;
        is("pow usize", x.pow(e as usize), &w)?;
        is("pow u128", x.pow(e as u128), &w)?;
        is("pow Uint", x.pow(Uint::<2>::from(e)), &w)?;
        is("pow slice", x.pow(&[e, 0][..]), &w)?;
    }
    let w = a.modpow(&big(&[1, 1]), &p);
    is("pow u128", x.pow((1u128 << 64) + 1), &w)?;
    is("pow Uint", x.pow(Uint::<2>::new([1, 1])), &w)?;
    is("pow slice", x.pow(&[1u64, 1][..]), &w)?;
    is("pow to the modulus", x.pow(P::MODULUS), a)?;
    is("pow empty slice", x.pow(&[][..]), &(BigUint::one() % &p))?;
    let mut z = x;
    zeroize_(&mut z);
    is("zeroize", z, &BigUint::zero())
}
fn zeroize_<T: openzeppelin_crypto::field::Field>(t: &mut T) {
    t.zeroize();
}
fn pair<P: FpParams<N>, const N: usize>(a: &BigUint, b: &BigUint) -> Result<(), String> {
    let p = big(P::MODULUS.as_limbs());
    let (x, y) = (el::<P, N>(a), el::<P, N>(b));
    macro_rules! ops {
        ($n:literal, $op:tt, $as:tt, $w:expr) => {{
            let w: BigUint = $w;
            is($n, x $op y, &w)?;
            is(concat!($n, " &"), x $op &y, &w)?;
            is(concat!("& ", $n, " &"), &x $op &y, &w)?;
            let mut m = y;
            is(concat!($n, " &mut"), x $op &mut m, &w)?;
            let mut t = x;
            t $as y;
            is(concat!($n, " assign"), t, &w)?;
            let mut t = x;
            t $as &y;
            is(concat!($n, " assign &"), t, &w)?;
            let mut t = x;
            t $as &mut m;
            is(concat!($n, " assign &mut"), t, &w)?;
        }};
    }
    ops!("add", +, +=, (a + b) % &p);
    ops!("sub", -, -=, (&p + a - b) % &p);
    ops!("mul", *, *=, (a * b) % &p);
    same!("cmp", (x.cmp(&y), x.partial_cmp(&y), x == y, x < y), (a.cmp(b), a.partial_cmp(b), a == b, a < b));
    if b.is_zero() {
        same!("div by zero", quiet(|| val(&(x / y))).is_none(), true);
        same!("div by zero", quiet(|| val(&(&x / &y))).is_none(), true);
        let mut t = x;
        same!("div by zero", quiet(|| { t /= y; val(&t) }).is_none(), true);
    } else {
        ops!("div", /, /=, (a * b.modpow(&(&p - 2u32), &p)) % &p);
    }
    is("sum_of_products", Fp::<P, N>::sum_of_products(&[x, y, x], &[y, y, x]), &((a * b + b * b + a * a) % &p))?;
    macro_rules! sop {
        ($($t:literal)*) => { $( {
            let u: [Fp<P, N>; $t] = core::array::from_fn(|i| if i % 3 == 2 { y } else { x });
            let v: [Fp<P, N>; $t] = core::array::from_fn(|i| if i % 2 == 0 { y } else { x });
            let w = (0..$t).fold(BigUint::zero(), |s: BigUint, i: usize| s + if i % 3 == 2 { b } else { a } * if i % 2 == 0 { b } else { a });
            is(concat!("sum of ", $t, " products"), Fp::<P, N>::sum_of_products(&u, &v), &(w % &p))?;
        } )* };
    }
    sop!(0 1 2 4 5 6 7 8 9 13 17);
    let mut t = x;
    zeroize::Zeroize::zeroize(&mut t);
    is("zeroized", t, &BigUint::zero())?;
    Ok(())
}
fn cheap_pair<P: FpParams<N>, const N: usize>(a: &BigUint, b: &BigUint, p: &BigUint) -> Result<(), String> {
    let (x, y) = (el::<P, N>(a), el::<P, N>(b));
    is("add", x + y, &((a + b) % p))?;
    is("sub", x - y, &((p + a - b) % p))?;
    is("mul", x * y, &((a * b) % p))?;
    Ok(())
}
fn sums<P: FpParams<N>, const N: usize>(c: &mut Check, name: &str, vals: &[BigUint]) {
    let p = big(P::MODULUS.as_limbs());
    let k = vals.len().min(5);
    let pick: Vec<BigUint> = (0..k).map(|i| vals[i * (vals.len() - 1) / (k - 1).max(1)].clone()).collect();
    let ws: Vec<Vec<usize>> = (0..=4).flat_map(|l| words(k, l)).collect();
    c.enumerate(&format!("{name}: sums and products of lists"), &format!("all lists up to length 4 over {k} elements"), &ws, |w| {
        let v: Vec<Fp<P, N>> = w.iter().map(|i| el(&pick[*i])).collect();
        let s = w.iter().fold(BigUint::zero(), |s, i| s + &pick[*i]) % &p;
        let m = w.iter().fold(BigUint::one(), |s, i| s * &pick[*i]) % &p;
        is("sum", v.iter().copied().sum::<Fp<P, N>>(), &s)?;
        is("sum of references", v.iter().sum::<Fp<P, N>>(), &s)?;
        is("product", v.iter().copied().product::<Fp<P, N>>(), &m)?;
        is("product of references", v.iter().product::<Fp<P, N>>(), &m)?;
        Ok(true)
    });
}
/// boundary elements: near zero, the modulus, its halves, limb boundaries, and the
/// same for the internal representation (multiples of the inverse of the base)
fn boundary<P: FpParams<N>, const N: usize>(rich: bool) -> Vec<BigUint> {
    let p = big(P::MODULUS.as_limbs());
    let r = BigUint::one() << (64 * N);
    let rinv = (&r % &p).modpow(&(&p - 2u32), &p);
    let mut s = BTreeSet::new();
    let mut base = vec![];
    for d in 0u32..3 {
        for c in [BigUint::zero(), p.clone(), &p >> 1, &r % &p, (&r * &r) % &p] {
            base.push(&c + d);
            base.push((&p + &c - d) % &p);
        }
    }
    for i in 1..=N {
        let b = BigUint::one() << (64 * i - 1);
        base.push(b.clone());
        base.push(&b << 1);
        base.push((&b << 1) - 1u32);
        if rich && N < 6 || thorough() {
            base.push(&b - 1u32);
            base.push(&b >> 31);
            base.push((&b >> 31) - 1u32);
            base.push((&p + &p - ((&b << 1) % &p)) % &p);
        }
    }
    for d in 3u32..16 {
        base.push(BigUint::from(d));
        base.push(&p - d);
    }
    for x in base {
        let x = x % &p;
        s.insert((&x * &rinv) % &p);
        s.insert(x);
    }
    s.into_iter().collect()
}
/// integers that are not reduced
fn unreduced<P: FpParams<N>, const N: usize>(c: &mut Check, name: &str) {
    let p = big(P::MODULUS.as_limbs());
    let r = BigUint::one() << (64 * N);
    let mut v = BTreeSet::new();
    for d in 0u32..4 {
        v.insert(&r - 1u32 - d);
        v.insert((&r >> 1) + d);
        v.insert((&r >> 1) - d);
        for k in 1u32..4 {
            v.insert(&p * k + d);
            v.insert(&p * k - d);
        }
        let q = &r / &p;
        v.insert(&q * &p + d);
        v.insert(&q * &p - d);
        v.insert(&q / 2u32 * &p + d);
    }
    for w in words(3, N.min(4)) {
        let mut l = [u64::MAX; N];
        for (i, x) in w.iter().enumerate() {
            l[N - 1 - i] = [0, u64::MAX, 1 << 63][*x];
        }
        v.insert(big(&l));
    }
    let v: Vec<BigUint> = v.into_iter().filter(|x| *x < r).collect();
    c.enumerate(&format!("{name}: integers beyond the modulus"), "multiples of the modulus and their neighbours, limb patterns", &v, |x| {
        let w = x % &p;
        let u = Uint::<N>::new(limbs::<N>(x));
        is("from_bigint", Fp::<P, N>::from_bigint(u), &w)?;
        is("new", Fp::<P, N>::new(u), &w)?;
        is("From<Uint>", Fp::<P, N>::from(u), &w)?;
        Ok(true)
    });
}
fn ints<P: FpParams<N>, const N: usize>() -> Result<(), String> {
    let p = big(P::MODULUS.as_limbs());
    let pos = |x: u128| BigUint::from(x) % &p;
    let sg = |x: i128| {
        let a = BigUint::from(x.unsigned_abs()) % &p;
        if x < 0 {
            (&p - a) % &p
        } else {
            a
        }
    };
    for x in i8::MIN..=i8::MAX {
        is("from i8", Fp::<P, N>::from(x), &sg(x as i128))?;
    }
    for x in u8::MIN..=u8::MAX {
        is("from u8", Fp::<P, N>::from(x), &pos(x as u128))?;
    }
    is("from true", Fp::<P, N>::from(true), &pos(1))?;
    is("from false", Fp::<P, N>::from(false), &pos(0))?;
    macro_rules! t {
        ($u:ty, $i:ty) => {
            for k in 0..<$u>::BITS {
                for d in [0, 1, <$u>::MAX] {
                    let x = ((1 as $u) << k).wrapping_add(d);
                    is(stringify!($u), Fp::<P, N>::from(x), &pos(x as u128))?;
                    is(stringify!($i), Fp::<P, N>::from(x as $i), &sg(x as $i as i128))?;
                }
            }
        };
    }
    t!(u16, i16);
    t!(u32, i32);
    t!(u64, i64);
    // one limb cannot take 128 bits: refused there
    for k in 0..128 {
        for d in [0, 1, u128::MAX] {
            let x = (1u128 << k).wrapping_add(d);
            if N > 1 || x >> 64 == 0 {
                is("from u128", Fp::<P, N>::from(x), &pos(x))?;
            }
            let y = x as i128;
            if N > 1 || y.unsigned_abs() >> 64 == 0 {
                is("from i128", Fp::<P, N>::from(y), &sg(y))?;
            }
        }
    }
    Ok(())
}
fn into_ints<P: FpParams<1>>(vals: &[BigUint]) -> Result<(), String> {
    for a in vals {
        let x = el::<P, 1>(a);
        let w = limbs::<1>(a)[0];
        macro_rules! t {
            ($($t:ty)*) => { $( same!(format!("{a} into {}", stringify!($t)), quiet(|| <$t>::from(x)), <$t>::try_from(w).ok()); )* };
        }
        t!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
    }
    Ok(())
}
fn consts<P: FpParams<N>, const N: usize>() -> Result<(), String> {
    let p = big(P::MODULUS.as_limbs());
    type F<P, const N: usize> = Fp<P, N>;
    is("ZERO", F::<P, N>::ZERO, &BigUint::zero())?;
    is("ONE", F::<P, N>::ONE, &BigUint::one())?;
    is("zero()", <F<P, N> as Zero>::zero(), &BigUint::zero())?;
    is("one()", <F<P, N> as One>::one(), &BigUint::one())?;
    is("default", F::<P, N>::default(), &BigUint::zero())?;
    is("group zero", <F<P, N> as AdditiveGroup>::ZERO, &BigUint::zero())?;
    is("field one", <F<P, N> as Field>::ONE, &BigUint::one())?;
    same!("modulus", big(<F<P, N> as PrimeField>::MODULUS.as_limbs()), p);
    same!("characteristic", big(<F<P, N> as PrimeField>::characteristic().as_limbs()), p);
    same!("modulus bit size", <F<P, N> as PrimeField>::MODULUS_BIT_SIZE, p.bits() as usize);
    same!("extension degree", <F<P, N> as Field>::extension_degree(), 1);
    same!("generator constant", val(&F::<P, N>::GENERATOR), val(&P::GENERATOR));
    same!("spare bit", P::HAS_MODULUS_SPARE_BIT, p.bits() < 64 * N as u64);
    Ok(())
}
/// every element of the field
fn small<P: FpParams<N>, const N: usize>(c: &mut Check, name: &str) {
    let p = limbs::<1>(&big(P::MODULUS.as_limbs()))[0];
    let v: Vec<BigUint> = (0..p).map(BigUint::from).collect();
    run::<P, N>(c, &format!("{name} (all elements)"), &v, &v);
    c.fact(&format!("{name}: the generator generates"), (|| {
        let (mut x, mut seen) = (Fp::<P, N>::ONE, HashSet::new());
        while seen.insert(x) {
            x *= P::GENERATOR;
        }
        same!("order", seen.len() as u64, p - 1);
        Ok(())
    })());
}
fn run<P: FpParams<N>, const N: usize>(c: &mut Check, name: &str, left: &[BigUint], right: &[BigUint]) {
    c.fact(&format!("{name}: constants"), consts::<P, N>());
    c.fact(&format!("{name}: conversions from integers"), ints::<P, N>());
    let one = left.len() <= 300 || c.thorough();
    let lu: Vec<BigUint> = if one { left.to_vec() } else { left.iter().step_by(7).cloned().collect() };
    c.enumerate(&format!("{name}: unary operations and powers"), &format!("{} elements", lu.len()), &lu, |a| unary::<P, N>(a).map(|_| true));
    let p = big(P::MODULUS.as_limbs());
    let full = left.len() <= 300 || c.thorough();
    c.enumerate(&format!("{name}: binary operations"), &format!("{} x {} elements", left.len(), right.len()), left, |a| {
        for b in right {
            (if full { pair::<P, N>(a, b) } else { cheap_pair::<P, N>(a, b, &p) }).map_err(|e| format!("rhs {b}: {e}"))?;
        }
        Ok(true)
    });
    c.scale_last(right.len() as u64);
    sums::<P, N>(c, name, left);
    unreduced::<P, N>(c, name);
}
fn large<P: FpParams<N>, const N: usize>(c: &mut Check, name: &str) {
    let v = boundary::<P, N>(true);
    run::<P, N>(c, &format!("{name} (boundary elements)"), &v, &v);
}
/// the published parameters
fn known<P: FpParams<N>, const N: usize>(c: &mut Check, name: &str, modulus: &str, gen: u32, factors: &[(&str, u32)]) {
    c.fact(&format!("{name}: published modulus and generator"), (|| {
        let p: BigUint = modulus.parse().unwrap();
        same!("modulus", big(P::MODULUS.as_limbs()), p);
        let prod = factors.iter().fold(BigUint::one(), |a, (f, e)| a * f.parse::<BigUint>().unwrap().pow(*e));
        same!("harness: factors of p - 1", prod, &p - 1u32);
        same!("generator", val(&P::GENERATOR), BigUint::from(gen));
        for (f, _) in factors {
            let e = (&p - 1u32) / f.parse::<BigUint>().unwrap();
            let x = P::GENERATOR.pow(Uint::<N>::new(limbs::<N>(&e)));
            same!(format!("generator to (p-1)/{f} is one"), x.is_one(), false);
            is("power of the generator", x, &BigUint::from(gen).modpow(&e, &p))?;
        }
        let x = P::GENERATOR.pow(Uint::<N>::new(limbs::<N>(&(&p - 1u32))));
        same!("generator to p-1 is one", x.is_one(), true);
        Ok(())
    })());
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}
fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    macro_rules! s { ($($t:ident $n:literal),*) => { $( small::<$t, $n>(&mut c, stringify!($t)); )* }; }
    macro_rules! l { ($($t:ident $n:literal),*) => { $( large::<$t, $n>(&mut c, stringify!($t)); )* }; }
    s!(P3 1, P5 1, P7 1, P11 1, P13 1, P17 1, P31 1, P61 1, P97 1, P127 1, P251 1, P257 1, P3w2 2, P7w2 2, P61w2 2, P251w3 3, P13w4 4, P97w4 4, P17w6 6, P31w7 7);
    s!(P1009 1);
    let all: Vec<BigUint> = (0..257u32).map(BigUint::from).collect();
    c.fact("P257: into integers", into_ints::<P257>(&all));
    c.fact("F64a: into integers", into_ints::<F64a>(&boundary::<F64a, 1>(true)));
    c.fact("FpGoldiLocks: into integers", into_ints::<GoldiLocksParam>(&boundary::<GoldiLocksParam, 1>(true)));
    c.fact("FpBabyBear: into integers", into_ints::<BabyBearParam>(&boundary::<BabyBearParam, 1>(true)));
    l!(F64a 1, F64b 1, F63 1, F32 1, F33 1, F128a 2, F127 2, F65 2, F192 3, Secp 4, SecpN 4, P256r1 4, C25519 4, Bls381 6, P384 6, P448 7);
    l!(VestaParam 4, BabyBearParam 1, BLS12Param 4, BN256Param 4, GoldiLocksParam 1, PallasParam 4);
    known::<BabyBearParam, 1>(&mut c, "FpBabyBear", "2013265921", 31, &[("2", 27), ("3", 1), ("5", 1)]);
    known::<GoldiLocksParam, 1>(&mut c, "FpGoldiLocks", "18446744069414584321", 7, &[("2", 32), ("3", 1), ("5", 1), ("17", 1), ("257", 1), ("65537", 1)]);
    known::<VestaParam, 4>(&mut c, "FpVesta", "28948022309329048855892746252171976963363056481941647379679742748393362948097", 5, &VESTA);
    known::<PallasParam, 4>(&mut c, "FpPallas", "28948022309329048855892746252171976963363056481941560715954676764349967630337", 5, &[("2", 32), ("3", 1), ("463", 1), ("539204044132271846773", 1), ("8999194758858563409123804352480028797519453", 1)]);
    known::<BLS12Param, 4>(&mut c, "FpBLS12", "52435875175126190479447740508185965837690552500527637822603658699938581184513", 7, &[("2", 32), ("3", 1), ("11", 1), ("19", 1), ("10177", 1), ("125527", 1), ("859267", 1), ("906349", 2), ("2508409", 1), ("2529403", 1), ("52437899", 1), ("254760293", 2)]);
    known::<BN256Param, 4>(&mut c, "FpBN256", "21888242871839275222246405745257275088548364400416034343698204186575808495617", 7, &[("2", 28), ("3", 2), ("13", 1), ("29", 1), ("983", 1), ("11003", 1), ("237073", 1), ("405928799", 1), ("1670836401704629", 1), ("13818364434197438864469338081", 1)]);
    c.assume("fields are over odd primes, as the representation requires; 128-bit integers fit the field's limbs");
    wasm(&mut c, "field");
    c.finish()
}
const VESTA: [(&str, u32); 6] = [("2", 32), ("3", 2), ("1709", 1), ("24859", 1), ("1690502597179744445941507", 1), ("10427374428728808478656897599072717", 1)];
