//! C35: short Weierstrass curves against the chord-and-tangent law.
use mcc::report::Check;
use mcc::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::arithmetic::uint::Uint;
use openzeppelin_crypto::curve::sw::{sw_double_and_add_affine, sw_double_and_add_projective, Affine, Projective, SWCurveConfig};
use openzeppelin_crypto::curve::{batch_inversion, AffineRepr, CurveConfig, CurveGroup, PrimeGroup};
use openzeppelin_crypto::field::fp::{Fp, FpParams};
use openzeppelin_crypto::field::group::AdditiveGroup;
use openzeppelin_crypto::field::prime::PrimeField;
use openzeppelin_crypto::field::Field;
use openzeppelin_crypto::{fp_from_hex, fp_from_num, from_hex, from_num};
use std::hash::{Hash, Hasher};

/// a curve over a small field
trait Small: SWCurveConfig {
    fn f(x: u64) -> Self::BaseField;
    fn v(x: &Self::BaseField) -> u64;
    fn s(x: u64) -> Self::ScalarField;
    fn order() -> u64;
    fn p() -> u64;
    fn cof() -> u64;
}
macro_rules! curve {
    ($c:ident, $p:literal, $a:literal, $b:literal, $r:literal, $h:expr, $hi:literal, $gx:literal, $gy:literal) => {
        curve!($c, $p, $a, $b, $r, $h, $hi, $gx, $gy, C::COFACTOR[0]);
    };
    ($c:ident, $p:literal, $a:literal, $b:literal, $r:literal, $h:expr, $hi:literal, $gx:literal, $gy:literal, $cof:expr) => {
        #[allow(non_snake_case)]
        mod $c {
            use super::*;
            pub struct Q;
            impl FpParams<1> for Q {
                const MODULUS: Uint<1> = from_num!($p);
                const GENERATOR: Fp<Q, 1> = fp_from_num!("2");
            }
            pub struct R;
            impl FpParams<1> for R {
                const MODULUS: Uint<1> = from_num!($r);
                const GENERATOR: Fp<R, 1> = fp_from_num!("2");
            }
            pub struct C;
            impl CurveConfig for C {
                type BaseField = Fp<Q, 1>;
                type ScalarField = Fp<R, 1>;
                const COFACTOR: &'static [u64] = $h;
                const COFACTOR_INV: Fp<R, 1> = fp_from_num!($hi);
            }
            impl SWCurveConfig for C {
                const COEFF_A: Fp<Q, 1> = fp_from_num!($a);
                const COEFF_B: Fp<Q, 1> = fp_from_num!($b);
                const GENERATOR: Affine<C> = Affine::new_unchecked(fp_from_num!($gx), fp_from_num!($gy));
            }
            impl Small for C {
                fn f(x: u64) -> Fp<Q, 1> {
                    Fp::from(x)
                }
                fn v(x: &Fp<Q, 1>) -> u64 {
                    x.into_bigint().as_limbs()[0]
                }
                fn s(x: u64) -> Fp<R, 1> {
                    Fp::from(x)
                }
                fn order() -> u64 {
                    R::MODULUS.as_limbs()[0]
                }
                fn p() -> u64 {
                    Q::MODULUS.as_limbs()[0]
                }
                fn cof() -> u64 {
                    $cof
                }
            }
        }
    };
}
curve!(E5a2b1r7, "5", "2", "1", "7", &[1], "1", "0", "1");
curve!(E7a0b3r13, "7", "0", "3", "13", &[1, 0], "1", "1", "2");
curve!(E13a0b2r19, "13", "0", "2", "19", &[1, 0], "1", "1", "4");
curve!(E7a0b1r3, "7", "0", "1", "3", &[4, 0], "1", "0", "1");
curve!(E29a0b1r5, "29", "0", "1", "5", &[6], "1", "4", "23");
curve!(E11a1b1r7, "11", "1", "1", "7", &[2], "4", "3", "3");
curve!(E13a1b0r5, "13", "1", "0", "5", &[4, 0], "4", "4", "4");
curve!(E17a14b1r5, "17", "14", "1", "5", &[4], "4", "5", "14");
curve!(E19a16b9r19, "19", "16", "9", "19", &[1, 0], "1", "0", "3");
curve!(E23a1b1r7, "23", "1", "1", "7", &[4], "2", "13", "16");
curve!(E31a0b5r13, "31", "0", "5", "13", &[3, 0], "9", "6", "29");
curve!(E13a2b2r5, "13", "2", "2", "5", &[3, 0], "2", "6", "3");
// the cofactor 3 in more than one limb, up to a multiple of the number of points
curve!(E13a2b2r5w, "13", "2", "2", "5", &[1, 2], "2", "6", "3", 3);
curve!(E13a2b2r5x, "13", "2", "2", "5", &[0, 3, 0], "2", "6", "3", 3);
curve!(E17a14b0r13, "17", "14", "0", "13", &[2], "7", "15", "10");
curve!(E5a0b1r3, "5", "0", "1", "3", &[2], "2", "0", "4");
curve!(E43a1b3r47, "43", "1", "3", "47", &[1, 0], "1", "2", "20");
curve!(E37a34b1r11, "37", "34", "1", "11", &[4, 0], "3", "2", "22");

type Pt = Option<(u64, u64)>;
#[derive(Clone)]
struct Ref {
    p: u64,
    a: u64,
    b: u64,
    inv: Vec<u64>,
}
impl Ref {
    fn new<C: Small>() -> Self {
        let p = C::p();
        let inv = (0..p).map(|x| (0..p).find(|y| x * y % p == 1).unwrap_or(0)).collect();
        Ref { p, a: C::v(&C::COEFF_A), b: C::v(&C::COEFF_B), inv }
    }
    fn on(&self, x: u64, y: u64) -> bool {
        y * y % self.p == (x * x % self.p * x + self.a * x + self.b) % self.p
    }
    fn points(&self) -> Vec<Pt> {
        let mut v = vec![None];
        for x in 0..self.p {
            for y in 0..self.p {
                if self.on(x, y) {
                    v.push(Some((x, y)));
                }
            }
        }
        v
    }
    fn neg(&self, q: Pt) -> Pt {
        q.map(|(x, y)| (x, (self.p - y) % self.p))
    }
    fn add(&self, s: Pt, t: Pt) -> Pt {
        let (Some((x1, y1)), Some((x2, y2))) = (s, t) else { return s.or(t) };
        let p = self.p;
        let l = if x1 == x2 {
            if (y1 + y2) % p == 0 {
                return None;
            }
            (3 * x1 * x1 + self.a) % p * self.inv[(2 * y1 % p) as usize] % p
        } else {
            (p + y2 - y1) % p * self.inv[((p + x2 - x1) % p) as usize] % p
        };
        let x = (l * l + 2 * p - x1 - x2) % p;
        Some((x, (l * (p + x1 - x) + p - y1) % p))
    }
    fn mul(&self, k: u64, q: Pt) -> Pt {
        (0..k).fold(None, |s, _| self.add(s, q))
    }
    /// projective representative of a point with the given scaling
    fn proj<C: Small>(&self, q: Pt, z: u64) -> Projective<C> {
        let p = self.p;
        let (z2, z3) = (z * z % p, z * z % p * z % p);
        match q {
            Some((x, y)) => Projective::new_unchecked(C::f(x * z2 % p), C::f(y * z3 % p), C::f(z)),
            None => Projective::new_unchecked(C::f(z2), C::f(z3), C::f(0)),
        }
    }
}
fn aff<C: Small>(q: Pt) -> Affine<C> {
    match q {
        Some((x, y)) => Affine::new_unchecked(C::f(x), C::f(y)),
        None => Affine::identity(),
    }
}
fn pt<C: Small>(a: &Affine<C>) -> Pt {
    if a.infinity {
        None
    } else {
        Some((C::v(&a.x), C::v(&a.y)))
    }
}
/// the point of a projective value, computed outside the library
fn ppt<C: Small>(r: &Ref, j: &Projective<C>) -> Pt {
    let (x, y, z) = (C::v(&j.x), C::v(&j.y), C::v(&j.z));
    if z == 0 {
        return None;
    }
    let i = r.inv[z as usize];
    let i2 = i * i % r.p;
    Some((x * i2 % r.p, y * i2 % r.p * i % r.p))
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn unary<C: Small>(r: &Ref, q: Pt, z: u64) -> Result<(), String> {
    let j = r.proj::<C>(q, z);
    let a = aff::<C>(q);
    same!("is_zero", (Zero::is_zero(&j), AffineRepr::is_zero(&a)), (q.is_none(), q.is_none()));
    same!("into_affine", (pt(&j.into_affine()), pt(&Affine::from(j))), (q, q));
    same!("into_group", (ppt(r, &a.into_group()), ppt(r, &Projective::from(a))), (q, q));
    same!("xy", (a.xy().map(|(x, y)| (C::v(&x), C::v(&y))), a.x().map(|x| C::v(&x)), a.y().map(|x| C::v(&x))), (q, q.map(|x| x.0), q.map(|x| x.1)));
    same!("neg", (ppt(r, &-j), pt(&-a)), (r.neg(q), r.neg(q)));
    let mut t = j;
    let u = *t.neg_in_place();
    same!("neg_in_place", (ppt(r, &t), ppt(r, &u)), (r.neg(q), r.neg(q)));
    let d = r.add(q, q);
    same!("double", ppt(r, &j.double()), d);
    let mut t = j;
    let u = *t.double_in_place();
    same!("double_in_place", (ppt(r, &t), ppt(r, &u)), (d, d));
    same!("equal to affine", (j == a, a == j), (true, true));
    same!("hash", (hash(&j), hash(&a.into_group())), (hash(&r.proj::<C>(q, 1)), hash(&j)));
    same!("on curve", a.is_on_curve(), true);
    let (s, want) = (format!("{j}"), format!("{a}"));
    same!("display", s, want);
    same!("debug of infinity", format!("{j:?}") == "infinity", q.is_none());
    let in_sub = r.mul(C::order(), q).is_none();
    same!("subgroup", (a.is_in_correct_subgroup_assuming_on_curve(), C::is_in_correct_subgroup_assuming_on_curve(&a)), (in_sub, in_sub));
    let c = r.mul(C::cof(), q);
    same!("cofactor", (pt(&a.clear_cofactor()), pt(&a.mul_by_cofactor()), ppt(r, &a.mul_by_cofactor_to_group()), pt(&C::clear_cofactor(&a))), (c, c, c, c));
    if in_sub {
        let i = a.mul_by_cofactor_inv();
        same!("cofactor inverse", r.mul(C::cof(), pt(&i)), q);
    }
    Ok(())
}
fn pair<C: Small>(r: &Ref, (p1, z1): (Pt, u64), (p2, z2): (Pt, u64), all: bool) -> Result<(), String> {
    let (mut j, mut k) = (r.proj::<C>(p1, z1), r.proj::<C>(p2, z2));
    let w = r.add(p1, p2);
    let d = r.add(p1, r.neg(p2));
    same!("eq", j == k, p1 == p2);
    same!("add", ppt(r, &(j + k)), w);
    same!("sub", ppt(r, &(j - k)), d);
    let b = aff::<C>(p2);
    if z2 == 1 {
        same!("mixed add", ppt(r, &(j + b)), w);
        same!("mixed sub", ppt(r, &(j - b)), d);
        same!("mixed eq", (j == b, b == j), (p1 == p2, p1 == p2));
    }
    if p1 == p2 {
        same!("hash", hash(&j), hash(&k));
    }
    if !all {
        return Ok(());
    }
    macro_rules! ex {
        ($($n:literal: $e:expr => $w:expr;)*) => { $( same!($n, ppt(r, &{ $e }), $w); )* };
    }
    let a = aff::<C>(p1);
    let (mut a2, mut b2) = (a, b);
    ex! {
        "j + &k": j + &k => w;
        "&j + k": &j + k => w;
        "&j + &k": &j + &k => w;
        "j + &mut k": j + &mut k => w;
        "&j + &mut k": &j + &mut k => w;
        "j += k": { let mut t = j; t += k; t } => w;
        "j += &k": { let mut t = j; t += &k; t } => w;
        "j += &mut k": { let mut t = j; t += &mut k; t } => w;
        "j - &k": j - &k => d;
        "&j - k": &j - k => d;
        "&j - &k": &j - &k => d;
        "j - &mut k": j - &mut k => d;
        "&j - &mut k": &j - &mut k => d;
        "j -= k": { let mut t = j; t -= k; t } => d;
        "j -= &k": { let mut t = j; t -= &k; t } => d;
        "j -= &mut k": { let mut t = j; t -= &mut k; t } => d;
        "j + &affine": j + &b => w;
        "j += affine": { let mut t = j; t += b; t } => w;
        "j += &affine": { let mut t = j; t += &b; t } => w;
        "j - &affine": j - &b => d;
        "j -= affine": { let mut t = j; t -= b; t } => d;
        "j -= &affine": { let mut t = j; t -= &b; t } => d;
        "affine + affine": a + b => w;
        "affine + &affine": a + &b => w;
        "affine + j": a + k => w;
        "affine + &j": a + &k => w;
        "affine - affine": a - b => d;
        "affine - &affine": a - &b => d;
        "affine - j": a - k => d;
        "affine - &j": a - &k => d;
        "sum": [j, k].into_iter().sum::<Projective<C>>() => w;
        "sum &": [j, k].iter().sum::<Projective<C>>() => w;
        "sum affine": [a, b].into_iter().sum::<Projective<C>>() => w;
        "sum &affine": [a, b].iter().sum::<Projective<C>>() => w;
    }
    let _ = (&mut j, &mut a2, &mut b2);
    {
        let (mut t, mut u) = (j, a);
        zeroize::Zeroize::zeroize(&mut t);
        zeroize::Zeroize::zeroize(&mut u);
        same!("zeroized", [C::v(&t.x), C::v(&t.y), C::v(&t.z), C::v(&u.x), C::v(&u.y)], [0; 5]);
    }
    same!("affine eq", (a == b, hash(&a) == hash(&b) || p1 != p2), (p1 == p2, true));
    Ok(())
}
fn scalars<C: Small>(r: &Ref, q: Pt, z: u64, top: u64) -> Result<(), String> {
    let j = r.proj::<C>(q, z);
    let a = aff::<C>(q);
    let mut w: Pt = None;
    for k in 0..top {
        macro_rules! ex {
            ($($n:literal: $e:expr;)*) => { $( same!(format!("{} times {k}", $n), ppt(r, &{ $e }), w); )* };
        }
        ex! {
            "mul_bigint u64": PrimeGroup::mul_bigint(&j, k);
            "mul_bigint affine u64": AffineRepr::mul_bigint(&a, k);
            "mul_bigint Uint<1>": PrimeGroup::mul_bigint(&j, Uint::<1>::from(k));
            "mul_bigint Uint<2>": AffineRepr::mul_bigint(&a, Uint::<2>::from(k));
            "mul_bigint slice": PrimeGroup::mul_bigint(&j, &[k, 0][..]);
            "mul_bits_be": j.mul_bits_be((0..12).rev().map(|i| (k >> i) & 1 == 1));
            "mul_bits_be, 700 bits": j.mul_bits_be((0..700u32).rev().map(|i| i < 64 && (k >> i) & 1 == 1));
            "mul_projective": C::mul_projective(&j, k as u32);
            "mul_affine": C::mul_affine(&a, k as u16);
            "double_and_add_affine": sw_double_and_add_affine(&a, k);
            "double_and_add_projective": sw_double_and_add_projective(&j, k as u128);
        }
        if k < C::order() {
            let s = C::s(k);
            ex! {
                "j * s": j * s;
                "j * &s": j * &s;
                "j *= s": { let mut t = j; t *= s; t };
                "j *= &s": { let mut t = j; t *= &s; t };
                "a * s": a * s;
                "a * &s": a * &s;
            }
        }
        w = r.add(w, q);
    }
    Ok(())
}
fn run<C: Small>(c: &mut Check, name: &str) {
    let r = Ref::new::<C>();
    let pts = r.points();
    let n = pts.len() as u64;
    c.fact(&format!("{name}: parameters"), (|| {
        same!("harness: order", n, C::order() * C::cof());
        let g = pt(&C::GENERATOR);
        same!("generator", (ppt(&r, &<Projective<C> as PrimeGroup>::generator()), pt(&<Affine<C> as AffineRepr>::generator())), (g, g));
        same!("identity", [pt(&Affine::<C>::identity()), pt(&<Affine<C> as AffineRepr>::zero()), pt(&Affine::<C>::default()), ppt(&r, &<Projective<C> as Zero>::zero()), ppt(&r, &Projective::<C>::default()), ppt(&r, &<Projective<C> as AdditiveGroup>::ZERO)], [None; 6]);
        let all: Vec<u64> = (0..2 * r.p).collect();
        for x in all {
            same!("mul_by_a", C::v(&C::mul_by_a(C::f(x))), x * r.a % r.p);
            same!("add_b", C::v(&C::add_b(C::f(x))), (x + r.b) % r.p);
        }
        same!("cofactor_is_one", C::cofactor_is_one(), C::cof() == 1);
        Ok(())
    })());
    let reps: Vec<(Pt, u64)> = pts.iter().flat_map(|q| (1..r.p).map(move |z| (*q, z))).collect();
    c.enumerate(&format!("{name}: conversion, negation, doubling, subgroup, cofactor"), &format!("all {n} points in all {} scalings", r.p - 1), &reps, |(q, z)| unary::<C>(&r, *q, *z).map(|_| true));
    c.enumerate(&format!("{name}: addition and subtraction"), "all pairs of points in all scalings (projective, mixed, affine)", &reps, |x| {
        for y in &reps {
            pair::<C>(&r, *x, *y, x.1 <= 2 && y.1 <= 2).map_err(|e| format!("with {y:?}: {e}"))?;
        }
        Ok(true)
    });
    c.scale_last(reps.len() as u64);
    let top = 2 * n + 3;
    c.enumerate(&format!("{name}: scalar multiplication"), &format!("all points, all scalings, all scalars below {top}"), &reps, |(q, z)| scalars::<C>(&r, *q, *z, top).map(|_| true));
    c.scale_last(top);
    // construction
    let grid: Vec<(u64, u64)> = (0..r.p).flat_map(|x| (0..r.p).map(move |y| (x, y))).collect();
    c.enumerate(&format!("{name}: checked construction"), "all coordinate pairs in all scalings, on and off the curve", &grid, |&(x, y)| {
        let on = r.on(x, y);
        let ok = on && r.mul(C::order(), Some((x, y))).is_none();
        same!("is_on_curve", Affine::<C>::new_unchecked(C::f(x), C::f(y)).is_on_curve(), on);
        same!("Affine::new", quiet(|| pt(&Affine::<C>::new(C::f(x), C::f(y)))), if ok { Some(Some((x, y))) } else { None });
        for z in 1..r.p {
            let j = r.proj::<C>(Some((x, y)), z);
            same!("Projective::new", quiet(|| ppt(&r, &Projective::<C>::new(j.x, j.y, j.z))), if ok { Some(Some((x, y))) } else { None });
        }
        if r.p < 20 {
            same!("Projective::new at infinity", quiet(|| ppt(&r, &Projective::<C>::new(C::f(x), C::f(y), C::f(0)))), Some(None));
        }
        Ok(ok)
    });
    // lists
    let m = pts.len();
    let pick: Vec<(Pt, u64)> = vec![(None, 1), (None, 2), (pts[1], 1), (pts[m / 2], 2), (pts[m - 1], r.p - 1), (pts[m - 1], 1)];
    let ws: Vec<Vec<usize>> = (0..=5).flat_map(|l| words(pick.len(), l)).collect();
    c.enumerate(&format!("{name}: batch normalisation and sums"), "all lists up to length 5 over six representatives including infinity", &ws, |w| {
        let v: Vec<Projective<C>> = w.iter().map(|i| r.proj::<C>(pick[*i].0, pick[*i].1)).collect();
        let got: Vec<Pt> = Projective::<C>::normalize_batch(&v).iter().map(pt).collect();
        let want: Vec<Pt> = w.iter().map(|i| pick[*i].0).collect();
        same!("normalize_batch", got, want);
        let s = want.iter().fold(None, |s, q| r.add(s, *q));
        same!("sum", (ppt(&r, &v.iter().sum::<Projective<C>>()), ppt(&r, &v.iter().copied().sum::<Projective<C>>())), (s, s));
        let av: Vec<Affine<C>> = want.iter().map(|q| aff::<C>(*q)).collect();
        same!("sum of affine points", (ppt(&r, &av.iter().sum::<Projective<C>>()), ppt(&r, &av.iter().copied().sum::<Projective<C>>())), (s, s));
        let mut f: Vec<C::BaseField> = w.iter().map(|i| C::f(*i as u64 % r.p)).collect();
        batch_inversion(&mut f);
        let fv: Vec<u64> = f.iter().map(C::v).collect();
        let fw: Vec<u64> = w.iter().map(|i| r.inv[*i % r.p as usize]).collect();
        same!("batch_inversion", fv, fw);
        Ok(true)
    });
}

// ---- full-size curves ----
macro_rules! big_curve {
    ($m:ident, $n:literal, $p:literal, $a:literal, $b:literal, $rn:literal, $r:literal, $h:expr, $hi:literal, $gx:literal, $gy:literal) => {
        mod $m {
            use super::*;
            pub struct Q;
            impl FpParams<$n> for Q {
                const MODULUS: Uint<$n> = from_hex!($p);
                const GENERATOR: Fp<Q, $n> = fp_from_num!("2");
            }
            pub struct R;
            impl FpParams<$rn> for R {
                const MODULUS: Uint<$rn> = from_hex!($r);
                const GENERATOR: Fp<R, $rn> = fp_from_num!("7");
            }
            pub struct C;
            impl CurveConfig for C {
                type BaseField = Fp<Q, $n>;
                type ScalarField = Fp<R, $rn>;
                const COFACTOR: &'static [u64] = $h;
                const COFACTOR_INV: Fp<R, $rn> = fp_from_hex!($hi);
            }
            impl SWCurveConfig for C {
                const COEFF_A: Fp<Q, $n> = fp_from_hex!($a);
                const COEFF_B: Fp<Q, $n> = fp_from_hex!($b);
                const GENERATOR: Affine<C> = Affine::new_unchecked(fp_from_hex!($gx), fp_from_hex!($gy));
            }
            pub fn check(c: &mut Check) {
                let h = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
                let r = BRef { p: h($p), a: h($a), b: h($b) };
                let g: BPt = Some((h($gx), h($gy)));
                let n = h($r);
                large::<C, Q, R, $n, $rn>(c, stringify!($m), r, g, n);
            }
        }
    };
}
big_curve!(secp256k1, 4, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", "0", "7", 4, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", &[1, 0], "1", "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", "483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8");
big_curve!(p256, 4, "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF", "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", "5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B", 4, "FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", &[1], "1", "6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296", "4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5");
big_curve!(bls12_381, 6, "1A0111EA397FE69A4B1BA7B6434BACD764774B84F38512BF6730D2A0F6B0F6241EABFFFEB153FFFFB9FEFFFFFFFFAAAB", "0", "4", 4, "73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001", &[0x8c00aaab0000aaab, 0x396c8c005555e156], "73EDA753299D7D44E34F0B31458FBB21D07C8FF73BF14809EC0000020005FFFB", "17F1D3A73197D7942695638C4FA9AC0FC3688C4F9774B905A14E3A3F171BAC586C55E83FF97A1AEFFB3AF00ADB22C6BB", "8B3F481E3AAA0F1A09E30ED741D8AE4FCF5E095D5D00AF600DB18CB2C04B3EDD03CC744A2888AE40CAA232946C5E7E1");

type BPt = Option<(BigUint, BigUint)>;
struct BRef {
    p: BigUint,
    a: BigUint,
    b: BigUint,
}
impl BRef {
    fn inv(&self, x: &BigUint) -> BigUint {
        x.modpow(&(&self.p - 2u32), &self.p)
    }
    fn sub(&self, x: &BigUint, y: &BigUint) -> BigUint {
        (x + &self.p - y) % &self.p
    }
    fn rhs(&self, x: &BigUint) -> BigUint {
        (x * x * x + &self.a * x + &self.b) % &self.p
    }
    fn neg(&self, q: &BPt) -> BPt {
        q.as_ref().map(|(x, y)| (x.clone(), (&self.p - y) % &self.p))
    }
    fn add(&self, s: &BPt, t: &BPt) -> BPt {
        let (Some((x1, y1)), Some((x2, y2))) = (s, t) else { return s.clone().or(t.clone()) };
        let p = &self.p;
        let l = if x1 == x2 {
            if ((y1 + y2) % p).is_zero() {
                return None;
            }
            (x1 * x1 * 3u32 + &self.a) * self.inv(&(y1 * 2u32 % p)) % p
        } else {
            self.sub(y2, y1) * self.inv(&self.sub(x2, x1)) % p
        };
        let x = self.sub(&self.sub(&(&l * &l % p), x1), x2);
        let y = self.sub(&(l * self.sub(x1, &x) % p), y1);
        Some((x, y))
    }
    fn mul(&self, k: &BigUint, q: &BPt) -> BPt {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, q);
            }
        }
        r
    }
}
fn large<C, Q: FpParams<N>, R: FpParams<M>, const N: usize, const M: usize>(c: &mut Check, name: &str, r: BRef, g: BPt, n: BigUint)
where
    C: SWCurveConfig<BaseField = Fp<Q, N>, ScalarField = Fp<R, M>>,
{
    let el = |x: &BigUint| Fp::<Q, N>::from_bigint(Uint::new(limbs::<N>(x)));
    let aff = |q: &BPt| match q {
        Some((x, y)) => Affine::<C>::new_unchecked(el(x), el(y)),
        None => Affine::identity(),
    };
    let out = |a: &Affine<C>| -> BPt {
        if a.infinity {
            None
        } else {
            Some((big(a.x.into_bigint().as_limbs()), big(a.y.into_bigint().as_limbs())))
        }
    };
    let cof = big(C::COFACTOR);
    c.fact(&format!("{name}: parameters"), (|| {
        let (x, y) = g.clone().unwrap();
        same!("harness: generator on the curve", &y * &y % &r.p, r.rhs(&x));
        same!("harness: order", r.mul(&n, &g), None);
        same!("generator", out(&<Affine<C> as AffineRepr>::generator()), g);
        same!("harness: cofactor inverse", big(C::COFACTOR_INV.into_bigint().as_limbs()) * &cof % &n, BigUint::one());
        same!("cofactor_is_one", C::cofactor_is_one(), cof.is_one());
        Ok(())
    })());
    // scalars: small, around powers of two and the order
    let mut ks: Vec<BigUint> = (0u32..18).map(BigUint::from).collect();
    for i in [31u32, 32, 63, 64, 65, 127, 128, 191, 192, 254, 255] {
        let b = BigUint::one() << i;
        ks.extend([&b - 1u32, b.clone(), &b + 1u32]);
    }
    for d in 0u32..4 {
        ks.extend([&n - d, (&n >> 1) + d, &n / 3u32 + d]);
    }
    ks.push(n.clone() + 1u32);
    for i in [256u32, 257, 300, 319, 320] {
        ks.push((BigUint::one() << i) - 1u32);
    }
    let ms: Vec<BPt> = engine::par_map(&ks, |_, k| r.mul(k, &g));
    let z = el(&(&r.p - 3u32));
    let proj = |q: &BPt, scaled: bool| {
        let j: Projective<C> = aff(q).into();
        if scaled && q.is_some() {
            Projective::new_unchecked(j.x * z.square(), j.y * z.square() * z, z)
        } else {
            j
        }
    };
    let idx: Vec<usize> = (0..ks.len()).collect();
    c.enumerate(&format!("{name}: scalar multiples of the generator"), "small scalars and those around powers of two, the order and its fractions", &idx, |&i| {
        let (k, w) = (&ks[i], &ms[i]);
        let u = Uint::<5>::new(limbs::<5>(k));
        for sc in [false, true] {
            let j = proj(&g, sc);
            same!("mul_bigint", out(&PrimeGroup::mul_bigint(&j, u).into_affine()), *w);
            same!("mul_bits_be", out(&j.mul_bits_be((0..330u64).rev().map(|i| k.bit(i))).into_affine()), *w);
        }
        same!("affine mul_bigint", out(&AffineRepr::mul_bigint(&aff(&g), u).into_affine()), *w);
        let s = Fp::<R, M>::from_bigint(Uint::new(limbs::<M>(&(k % &n))));
        same!("mul", (out(&(aff(&g) * s).into_affine()), out(&(proj(&g, true) * s).into_affine())), (w.clone(), w.clone()));
        let a = aff(w);
        same!("on curve", a.is_on_curve(), true);
        same!("in the subgroup", a.is_in_correct_subgroup_assuming_on_curve(), true);
        if let Some((x, y)) = w {
            same!("new", quiet(|| out(&Affine::<C>::new(el(x), el(y)))), Some(w.clone()));
            same!("new off the curve", quiet(|| out(&Affine::<C>::new(el(x), el(&(y + 1u32))))).is_some(), false);
            same!("new off the curve", quiet(|| out(&Affine::<C>::new(el(&(x + 1u32)), el(y)))).is_some(), &r.rhs(&((x + 1u32) % &r.p)) == &(y * y % &r.p));
        }
        let i = a.mul_by_cofactor_inv();
        same!("cofactor inverse", out(&i.mul_by_cofactor()), *w);
        same!("cofactor", out(&a.clear_cofactor()), r.mul(&cof, w));
        Ok(true)
    });
    c.enumerate(&format!("{name}: addition of multiples"), "all pairs of the multiples above, normalised and scaled", &idx, |&i| {
        for k in 0..ms.len() {
            let w = r.add(&ms[i], &ms[k]);
            let d = r.add(&ms[i], &r.neg(&ms[k]));
            for (s, t) in [(false, false), (true, false), (false, true), (true, true)] {
                let (a, b) = (proj(&ms[i], s), proj(&ms[k], t));
                same!("eq", a == b, ms[i] == ms[k]);
                let got = Projective::<C>::normalize_batch(&[a + b, a - b, a + aff(&ms[k]), a - aff(&ms[k]), a.double()]);
                let got: Vec<BPt> = got.iter().map(out).collect();
                same!("add, sub, mixed add, mixed sub, double", got, vec![w.clone(), d.clone(), w.clone(), d.clone(), r.add(&ms[i], &ms[i])]);
            }
        }
        Ok(true)
    });
    c.scale_last(4 * ms.len() as u64);
    // points outside the subgroup
    if !cof.is_one() {
        c.fact(&format!("{name}: points outside the subgroup"), (|| {
            let mut seen = 0;
            for x in 0u32..60 {
                let x = BigUint::from(x);
                let y = r.rhs(&x).modpow(&((&r.p + 1u32) / 4u32), &r.p);
                if &y * &y % &r.p != r.rhs(&x) {
                    continue;
                }
                seen += 1;
                let q: BPt = Some((x.clone(), y.clone()));
                let a = aff(&q);
                let sub = r.mul(&n, &q).is_none();
                same!("on curve", a.is_on_curve(), true);
                same!("subgroup", a.is_in_correct_subgroup_assuming_on_curve(), sub);
                same!("new", quiet(|| out(&Affine::<C>::new(el(&x), el(&y)))).is_some(), sub);
                let cl = r.mul(&cof, &q);
                same!("clear_cofactor", out(&a.clear_cofactor()), cl);
                same!("cleared in the subgroup", a.clear_cofactor().is_in_correct_subgroup_assuming_on_curve(), true);
            }
            same!("harness: some points", seen > 10, true);
            Ok(())
        })());
    }
}
macro_rules! cof {
    ($($n:ident $h:expr, $w:literal;)*) => {
        fn cofactors() -> Result<(), String> {
            $( {
                struct $n;
                impl CurveConfig for $n {
                    type BaseField = Fp<secp256k1::Q, 4>;
                    type ScalarField = Fp<secp256k1::R, 4>;
                    const COFACTOR: &'static [u64] = $h;
                    const COFACTOR_INV: Fp<secp256k1::R, 4> = fp_from_num!("1");
                }
                same!(stringify!($h), $n::cofactor_is_one(), $w);
            } )*
            Ok(())
        }
    };
}
cof! {
    A &[], false;
    B &[0], false;
    D &[1], true;
    E &[2], false;
    F &[1, 0], true;
    G &[0, 1], false;
    H &[1, 1], false;
    I &[1, 0, 0], true;
    J &[1, 0, 1], false;
    K &[0, 0, 1], false;
    L &[1, 0, 0, 0], true;
    M &[1, 0, 0, 7], false;
    N &[u64::MAX], false;
}
fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    macro_rules! all { ($($m:ident)*) => { $( run::<$m::C>(&mut c, stringify!($m)); )* }; }
    all!(E5a2b1r7 E7a0b3r13 E13a0b2r19 E7a0b1r3 E29a0b1r5 E11a1b1r7 E13a1b0r5 E17a14b1r5 E19a16b9r19 E23a1b1r7 E31a0b5r13 E13a2b2r5 E13a2b2r5w E13a2b2r5x E17a14b0r13 E5a0b1r3);
    if c.thorough() {
        all!(E43a1b3r47 E37a34b1r11);
    }
    secp256k1::check(&mut c);
    p256::check(&mut c);
    bls12_381::check(&mut c);
    c.fact("cofactor representations", cofactors());
    c.assume("the subgroup order does not divide the cofactor, so that the cofactor has an inverse; base fields of degree one");
    c.finish()
}
