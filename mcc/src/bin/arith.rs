//! C33: fixed-width integers against arbitrary-precision integers.
use mcc::report::Check;
use mcc::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::arithmetic::limb;
use openzeppelin_crypto::arithmetic::uint::{from_str_hex, from_str_radix, Uint, WideUint, U128, U192, U256, U384, U448, U512, U576, U64, U640, U704, U768, U832};
use openzeppelin_crypto::arithmetic::BigInteger;
use openzeppelin_crypto::bits::BitIteratorBE;
use openzeppelin_crypto::{ct_for, ct_for_unroll2, ct_for_unroll4, ct_for_unroll6, ct_for_unroll8, from_hex, from_num};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

const M: u64 = u64::MAX;
const ALPHA: [u64; 14] = [0, M, 1, 1 << 63, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, M - 1, 2, (1 << 32) + 1, 3, (1 << 31), 0xFFFF_FFFF_0000_0000, 0xAAAA_AAAA_5555_5555];

fn product<const N: usize>(k: usize) -> Vec<[u64; N]> {
    words(k, N)
        .into_iter()
        .map(|w| {
            let mut o = [0; N];
            for (i, x) in w.iter().enumerate() {
                o[i] = ALPHA[*x];
            }
            o
        })
        .collect()
}
/// runs of all-ones limbs, their complements, single limbs, and neighbours of powers of the base
fn runs<const N: usize>() -> Vec<[u64; N]> {
    let mut v: Vec<[u64; N]> = vec![[0; N], [M; N]];
    for i in 0..N {
        for j in i + 1..=N {
            let mut a = [0; N];
            for x in &mut a[i..j] {
                *x = M;
            }
            v.push(a);
            let mut b = [M; N];
            for x in &mut b[i..j] {
                *x = 0;
            }
            v.push(b);
        }
        for s in [1, 1 << 63, 1 << 32, M - 1] {
            let mut a = [0; N];
            a[i] = s;
            v.push(a);
            let mut b = [M; N];
            b[i] = !s;
            v.push(b);
            a[0] |= 1;
            v.push(a);
        }
    }
    let mut seen = HashSet::new();
    v.retain(|x| seen.insert(*x));
    v
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn unary<const N: usize>(a: &[u64; N]) -> Result<(), String> {
    let u = Uint::<N>::new(*a);
    let b = big(a);
    let bits = 64 * N;
    let m = BigUint::one() << bits;
    same!("as_limbs", u.as_limbs(), a);
    same!("into_limbs", u.into_limbs(), *a);
    same!("as_ref", AsRef::<[u64]>::as_ref(&u), &a[..]);
    let mut mu = u;
    same!("as_mut", AsMut::<[u64]>::as_mut(&mut mu).to_vec(), a.to_vec());
    let odd = a[0] % 2 == 1;
    same!("is_odd", (u.ct_is_odd(), u.is_odd(), u.ct_is_even(), u.is_even()), (odd, odd, !odd, !odd));
    same!("is_zero", (u.ct_is_zero(), u.is_zero()), (b.is_zero(), b.is_zero()));
    same!("num_bits", (u.ct_num_bits(), u.num_bits()), (b.bits() as usize, b.bits() as usize));
    for i in 0..bits + 70 {
        same!(format!("get_bit {i}"), (u.ct_get_bit(i), u.get_bit(i)), (b.bit(i as u64), b.bit(i as u64)));
    }
    same!("get_bit huge", (u.ct_get_bit(usize::MAX), u.ct_get_bit(1 << 32)), (false, false));
    let mut d = u;
    let o = d.checked_mul2_assign();
    let dd = &b << 1;
    same!("mul2", (big(d.as_limbs()), o), (&dd % &m, dd >= m));
    let mut h = u;
    h.div2_assign();
    same!("div2", big(h.as_limbs()), &b >> 1);
    let be: Vec<bool> = (0..bits as u64).rev().map(|i| b.bit(i)).collect();
    let tr: Vec<bool> = be.iter().copied().skip_while(|x| !x).collect();
    same!("bit_be_iter", u.bit_be_iter().collect::<Vec<_>>(), be);
    same!("bit_be_trimmed_iter", u.bit_be_trimmed_iter().collect::<Vec<_>>(), tr);
    same!("slice bit_be_iter", (&a[..]).bit_be_iter().collect::<Vec<_>>(), be);
    same!("slice bit_be_trimmed_iter", (&a[..]).bit_be_trimmed_iter().collect::<Vec<_>>(), tr);
    let mut le = b.to_bytes_le();
    le.resize(8 * N, 0);
    same!("into_bytes_le", u.into_bytes_le(), le);
    same!("from_bytes_le", (Uint::<N>::from_bytes_le(&le), Uint::<N>::ct_from_le_slice(&le)), (u, u));
    let hex = format!("{:0>1$X}", HexOf(&b), 16 * N);
    same!("upper hex", format!("{u:X}"), hex);
    same!("display", format!("{u}"), hex);
    same!("debug", format!("{u:?}"), hex);
    let short = b.to_str_radix(16);
    same!("from hex (all digits)", from_str_hex::<N>(&hex), u);
    same!("from hex (lower)", from_str_hex::<N>(&hex.to_lowercase()), u);
    same!("from hex (short)", from_str_hex::<N>(&short), u);
    for r in [2u32, 3, 8, 10, 16, 36] {
        let s = b.to_str_radix(r);
        same!(format!("from radix {r}"), from_str_radix::<N>(&s, r), u);
    }
    same!("from upper digits", from_str_radix::<N>(&b.to_str_radix(36).to_uppercase(), 36), u);
    let n = !u;
    same!("not", big(n.as_limbs()), &m - 1u32 - &b);
    Ok(())
}
struct HexOf<'a>(&'a BigUint);
impl std::fmt::UpperHex for HexOf<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad_integral(true, "", &self.0.to_str_radix(16).to_uppercase())
    }
}

fn pair<const N: usize>(x: &[u64; N], y: &[u64; N], deep: bool) -> Result<(), String> {
    let (u, v) = (Uint::<N>::new(*x), Uint::<N>::new(*y));
    let (a, b) = (big(x), big(y));
    let m = BigUint::one() << (64 * N);
    let o = a.cmp(&b);
    same!("cmp", (u.cmp(&v), u.partial_cmp(&v)), (o, Some(o)));
    same!(
        "ct comparisons ge gt le lt eq ne",
        [u.ct_ge(&v), u.ct_gt(&v), u.ct_le(&v), u.ct_lt(&v), u.ct_eq(&v), u.ct_ne(&v), u == v],
        [o != Ordering::Less, o == Ordering::Greater, o != Ordering::Greater, o == Ordering::Less, o == Ordering::Equal, o != Ordering::Equal, o == Ordering::Equal]
    );
    if x == y {
        same!("hash", hash(&u), hash(&v));
    }
    let (s, c) = {
        let s = &a + &b;
        (&s % &m, s >= m)
    };
    let sl = limbs::<N>(&s);
    let r = u.ct_checked_add(&v);
    same!("checked_add", (*r.0.as_limbs(), r.1), (sl, c));
    let mut t = u;
    let tc = t.checked_add_assign(&v);
    same!("checked_add_assign", (*t.as_limbs(), tc), (sl, c));
    same!("wrapping_add", *u.ct_wrapping_add(&v).as_limbs(), sl);
    for k in [0u64, 1] {
        let w = &a + &b + k;
        let r = u.ct_adc(&v, k);
        same!(format!("adc {k}"), (*r.0.as_limbs(), r.1), (limbs::<N>(&(&w % &m)), (w >= m) as u64));
    }
    let (d, bo) = if a >= b { (&a - &b, false) } else { (&m + &a - &b, true) };
    let dl = limbs::<N>(&d);
    let r = u.ct_checked_sub(&v);
    same!("checked_sub", (*r.0.as_limbs(), r.1), (dl, bo));
    let mut t = u;
    let tb = t.checked_sub_assign(&v);
    same!("checked_sub_assign", (*t.as_limbs(), tb), (dl, bo));
    same!("wrapping_sub", *u.ct_wrapping_sub(&v).as_limbs(), dl);
    let p = &a * &b;
    let (lo, hi) = u.ct_widening_mul(&v);
    same!("widening_mul", (*lo.as_limbs(), *hi.as_limbs()), (limbs::<N>(&(&p % &m)), limbs::<N>(&(&p / &m))));
    let and = std::array::from_fn::<u64, N, _>(|i| x[i] & y[i]);
    let or = std::array::from_fn::<u64, N, _>(|i| x[i] | y[i]);
    let xor = std::array::from_fn::<u64, N, _>(|i| x[i] ^ y[i]);
    same!("and", [*(u & v).as_limbs(), *(u & &v).as_limbs(), *{ let mut t = u; t &= v; t }.as_limbs(), *{ let mut t = u; t &= &v; t }.as_limbs()], [and; 4]);
    same!("or", [*(u | v).as_limbs(), *(u | &v).as_limbs(), *{ let mut t = u; t |= v; t }.as_limbs(), *{ let mut t = u; t |= &v; t }.as_limbs()], [or; 4]);
    same!("xor", [*(u ^ v).as_limbs(), *(u ^ &v).as_limbs(), *{ let mut t = u; t ^= v; t }.as_limbs(), *{ let mut t = u; t ^= &v; t }.as_limbs()], [xor; 4]);
    // the pair as one wide number
    let w = WideUint::<N>::new(u, v);
    let wb = &a + &b * &m;
    same!("wide num_bits", w.ct_num_bits(), wb.bits() as usize);
    if deep {
        for i in 0..128 * N + 3 {
            same!(format!("wide get_bit {i}"), w.ct_get_bit(i), wb.bit(i as u64));
        }
        let fits = p < m;
        same!("ct_mul", quiet(|| *u.ct_mul(&v).as_limbs()), if fits { Some(limbs::<N>(&p)) } else { None });
        same!("ct_add", quiet(|| *u.ct_add(&v).as_limbs()), if c { None } else { Some(sl) });
    }
    Ok(())
}
fn rem<const N: usize>(lo: &[u64; N], hi: &[u64; N], d: &[u64; N]) -> Result<bool, String> {
    let w = WideUint::<N>::new(Uint::new(*lo), Uint::new(*hi));
    let db = big(d);
    if db.is_zero() {
        same!("rem by zero", quiet(|| w.ct_rem(&Uint::new(*d))).is_none(), true);
        return Ok(false);
    }
    let want = (big(lo) + (big(hi) << (64 * N))) % db;
    let got = quiet(|| *w.ct_rem(&Uint::new(*d)).as_limbs());
    same!("ct_rem", got, Some(limbs::<N>(&want)));
    Ok(true)
}

fn width<const N: usize>(c: &mut Check, vals: &[[u64; N]], what: &str, deep: bool) {
    c.enumerate(&format!("unary operations, {N} limbs, {what}"), &format!("{} operands; all bit positions; radices 2,3,8,10,16,36", vals.len()), vals, |a| unary::<N>(a).map(|_| true));
    let n = vals.len() as u64;
    c.enumerate(&format!("binary operations, {N} limbs, {what}"), &format!("all ordered pairs of {n} operands"), vals, |a| {
        for b in vals {
            pair::<N>(a, b, deep).map_err(|e| format!("rhs {b:x?}: {e}"))?;
        }
        Ok(true)
    });
    c.scale_last(n);
}
fn rems<const N: usize>(c: &mut Check, vals: &[[u64; N]], div: &[[u64; N]]) {
    let n = (vals.len() * div.len()) as u64;
    c.enumerate(&format!("wide remainder, {N} limbs"), &format!("{} low x {} high x {} divisors", vals.len(), vals.len(), div.len()), vals, |lo| {
        for hi in vals {
            for d in div {
                rem::<N>(lo, hi, d).map_err(|e| format!("high {hi:x?} divisor {d:x?}: {e}"))?;
            }
        }
        Ok(true)
    });
    c.scale_last(n);
}
fn prims<const N: usize>() -> Result<(), String> {
    let one = |x: u64| {
        let mut o = [0; N];
        o[0] = x;
        o
    };
    for x in 0..=255u8 {
        same!("from_u8", (*Uint::<N>::from_u8(x).as_limbs(), *Uint::<N>::from(x).as_limbs()), (one(x as u64), one(x as u64)));
    }
    for x in 0..=65535u16 {
        same!("from_u16", (*Uint::<N>::from_u16(x).as_limbs(), *Uint::<N>::from(x).as_limbs()), (one(x as u64), one(x as u64)));
    }
    for i in 0..64 {
        for d in [0u64, 1, M] {
            let y = (1u64 << i).wrapping_add(d);
            let w = one(y);
            same!("from_u64", (*Uint::<N>::from_u64(y).as_limbs(), *Uint::<N>::from(y).as_limbs()), (w, w));
            same!("from_usize", (*Uint::<N>::from_usize(y as usize).as_limbs(), *Uint::<N>::from(y as usize).as_limbs()), (w, w));
            let z = one(y as u32 as u64);
            same!("from_u32", (*Uint::<N>::from_u32(y as u32).as_limbs(), *Uint::<N>::from(y as u32).as_limbs()), (z, z));
        }
    }
    for i in 0..128 {
        for d in [0u128, 1, u128::MAX] {
            let y = (1u128 << i).wrapping_add(d);
            let want = if N == 1 {
                if y >> 64 != 0 {
                    None
                } else {
                    Some(one(y as u64))
                }
            } else {
                let mut o = one(y as u64);
                o[1] = (y >> 64) as u64;
                Some(o)
            };
            same!("from_u128", quiet(|| *Uint::<N>::from_u128(y).as_limbs()), want);
            same!("From<u128>", quiet(|| *Uint::<N>::from(y).as_limbs()), want);
        }
    }
    same!("constants", (*Uint::<N>::ZERO.as_limbs(), *Uint::<N>::ONE.as_limbs(), *Uint::<N>::MAX.as_limbs(), *Uint::<N>::default().as_limbs()), ([0; N], one(1), [M; N], [0; N]));
    same!("sizes", (Uint::<N>::BITS, Uint::<N>::NUM_LIMBS, Uint::<N>::LIMB_BITS), (64 * N, N, 64));
    // malformed input is refused, never read as another number
    let m = BigUint::one() << (64 * N);
    for r in [2u32, 3, 8, 10, 16, 36] {
        let edge = &m - 1u32;
        same!("largest in radix", quiet(|| from_str_radix::<N>(&edge.to_str_radix(r), r)), Some(Uint::MAX));
        for over in [m.clone(), &m + 1u32, &m * 2u32, &m * r + 5u32, &m * &m] {
            same!(format!("radix {r} overflow"), quiet(|| from_str_radix::<N>(&over.to_str_radix(r), r)).is_none(), true);
        }
        for bad in ["", "-1", "+1", " 1", "1 ", "1_0", "0x1", "\u{e9}", "\u{660}", "."] {
            same!(format!("radix {r} {bad:?}"), quiet(|| from_str_radix::<N>(bad, r)).is_none(), !(bad == "0x1" && r == 36));
        }
        if r < 36 {
            let dig = char::from_digit(r, 36).unwrap().to_string();
            for s in [dig.clone(), format!("1{dig}"), format!("{dig}1")] {
                same!(format!("radix {r} {s}"), quiet(|| from_str_radix::<N>(&s, r)).is_none(), true);
            }
        }
    }
    for bad in ["", "-1", "0x1", "g", "1g", "g1", " ", "G", "1_0", "\u{e9}"] {
        same!(format!("hex {bad:?}"), quiet(|| from_str_hex::<N>(bad)).is_none(), true);
    }
    same!("hex too long", quiet(|| from_str_hex::<N>(&m.to_str_radix(16))).is_none(), true);
    // every digit at every position
    for pos in 0..16 * N {
        for d in 1..16u32 {
            let s = format!("{}{}", char::from_digit(d, 16).unwrap(), "0".repeat(pos));
            same!(format!("hex {s}"), big(from_str_hex::<N>(&s).as_limbs()), BigUint::from(d) << (4 * pos));
        }
    }
    // every byte at every position; wrong lengths refused
    for pos in 0..8 * N {
        for x in [1u8, 0x80, 0xff] {
            let mut le = vec![0; 8 * N];
            le[pos] = x;
            same!(format!("byte {pos}"), big(Uint::<N>::from_bytes_le(&le).as_limbs()), BigUint::from(x) << (8 * pos));
        }
    }
    for l in (0..8 * N).chain(8 * N + 1..8 * N + 10) {
        same!(format!("{l} bytes"), quiet(|| Uint::<N>::from_bytes_le(&vec![0; l])).is_none(), true);
    }
    Ok(())
}
macro_rules! visit {
    ($m:ident, $s:expr, $e:expr) => {{
        let (s, e): (usize, usize) = ($s, $e);
        let mut v = vec![];
        $m!((i in s..e) { v.push(i) });
        v
    }};
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    let th = c.thorough();
    let q = |a: usize, b: usize| if th { b } else { a };
    // limbs
    let la: Vec<u64> = ALPHA.iter().copied().chain((0..64).flat_map(|i| [(1u64 << i), (1u64 << i) - 1, !(1u64 << i)])).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let nl = la.len() as u64;
    let cy = ALPHA;
    c.enumerate("limb primitives", &format!("{nl}^2 operands (powers of two, their neighbours and complements), {} addends and carries", cy.len()), &la, |&x| {
        for &y in &la {
            let p = BigUint::from(x) * y;
            same!(format!("widening_mul {x:x} {y:x}"), BigUint::from(limb::widening_mul(x, y)), p);
            let split = |b: BigUint| (limbs::<2>(&b)[0], limbs::<2>(&b)[1]);
            for k in cy {
                same!(format!("mac {k:x} + {x:x} * {y:x}"), limb::mac(k, x, y), split(&p + k));
                for q in cy {
                    same!(format!("carrying_mac {k:x} + {x:x} * {y:x} + {q:x}"), limb::carrying_mac(k, x, y, q), split(&p + k + q));
                }
            }
            for k in [0u64, 1] {
                let s = BigUint::from(x) + y + k;
                same!(format!("adc {x:x} {y:x} {k}"), limb::adc(x, y, k), split(s.clone()));
                let mut t = x;
                let o = limb::adc_assign(&mut t, y, k == 1);
                same!(format!("adc_assign {x:x} {y:x} {k}"), (t, o as u64), split(s));
                let need = y as u128 + k as u128;
                let d = ((x as u128 + (1 << 64) - need) as u64, (need > x as u128) as u64);
                same!(format!("sbb {x:x} {y:x} {k}"), limb::sbb(x, y, k), d);
                let mut t = x;
                let o = limb::sbb_assign(&mut t, y, k == 1);
                same!(format!("sbb_assign {x:x} {y:x} {k}"), (t, o as u64), d);
            }
        }
        Ok(true)
    });
    c.scale_last(nl * (cy.len() * cy.len()) as u64);
    // all small limbs
    let small: Vec<u64> = (0..=255).collect();
    c.enumerate("limb primitives on bytes and shifted bytes", "all pairs of bytes, shifted by 0, 28, 56", &small, |&x| {
        for y in 0..=255u64 {
            for s in [0, 28, 56] {
                for t in [0, 28, 56] {
                    let (a, b) = (x << s, y << t);
                    same!(format!("widening_mul {a:x} {b:x}"), limb::widening_mul(a, b), ((x * y) as u128) << (s + t));
                }
            }
        }
        Ok(true)
    });
    c.scale_last(256 * 9);
    // widths
    let p1: Vec<[u64; 1]> = la.iter().map(|x| [*x]).collect();
    width::<1>(&mut c, &p1, "powers of two and neighbours", true);
    width::<2>(&mut c, &product::<2>(q(14, 14)), "product alphabet", true);
    width::<3>(&mut c, &product::<3>(q(8, 10)), "product alphabet", true);
    width::<4>(&mut c, &product::<4>(q(4, 6)), "product alphabet", true);
    width::<5>(&mut c, &product::<5>(q(3, 5)), "product alphabet", false);
    width::<6>(&mut c, &product::<6>(q(3, 4)), "product alphabet", false);
    width::<7>(&mut c, &product::<7>(q(2, 3)), "product alphabet", false);
    let d = c.thorough();
    width::<1>(&mut c, &runs::<1>(), "runs", true);
    width::<2>(&mut c, &runs::<2>(), "runs", true);
    width::<3>(&mut c, &runs::<3>(), "runs", true);
    width::<4>(&mut c, &runs::<4>(), "runs", true);
    width::<5>(&mut c, &runs::<5>(), "runs", true);
    width::<6>(&mut c, &runs::<6>(), "runs", true);
    width::<7>(&mut c, &runs::<7>(), "runs", true);
    width::<8>(&mut c, &runs::<8>(), "runs", d);
    width::<9>(&mut c, &runs::<9>(), "runs", d);
    width::<10>(&mut c, &runs::<10>(), "runs", d);
    width::<11>(&mut c, &runs::<11>(), "runs", d);
    width::<12>(&mut c, &runs::<12>(), "runs", d);
    width::<13>(&mut c, &runs::<13>(), "runs", d);
    // remainder
    let r1: Vec<[u64; 1]> = ALPHA.iter().map(|x| [*x]).collect();
    let d1: Vec<[u64; 1]> = la.iter().map(|x| [*x]).collect();
    rems::<1>(&mut c, &r1, &d1);
    let r2 = product::<2>(q(4, 6));
    rems::<2>(&mut c, &r2, &product::<2>(q(5, 8)));
    rems::<3>(&mut c, &product::<3>(2), &product::<3>(q(2, 4)));
    rems::<4>(&mut c, &product::<4>(2), &product::<4>(q(2, 3)));
    rems::<6>(&mut c, &product::<6>(q(1, 2)).into_iter().chain([[M; 6], [1, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 1 << 63]]).collect::<Vec<_>>(), &runs::<6>());
    let sm: Vec<u64> = (0..64).collect();
    c.enumerate("wide remainder, small numbers", "all dividends below 64 (alone, in the low and in the high part) and all divisors below 64", &sm, |&x| {
        for y in 0..64 {
            for h in [0, x] {
                for l in [x, 0] {
                    rem::<1>(&[l], &[h], &[y])?;
                    rem::<2>(&[l, 0], &[0, h], &[y, 0])?;
                    rem::<2>(&[l, h], &[0, 0], &[0, y])?;
                }
            }
        }
        Ok(true)
    });
    c.scale_last(64 * 12);
    c.fact("conversions, 1 limb", prims::<1>());
    c.fact("conversions, 2 limbs", prims::<2>());
    c.fact("conversions, 3 limbs", prims::<3>());
    c.fact("conversions, 4 limbs", prims::<4>());
    c.fact("conversions, 6 limbs", prims::<6>());
    c.fact("conversions, 7 limbs", prims::<7>());
    c.fact("conversions, 13 limbs", prims::<13>());
    c.fact("declared widths", (|| {
        same!(
            "bits",
            [U64::BITS, U128::BITS, U192::BITS, U256::BITS, U384::BITS, U448::BITS, U512::BITS, U576::BITS, U640::BITS, U704::BITS, U768::BITS, U832::BITS],
            [64, 128, 192, 256, 384, 448, 512, 576, 640, 704, 768, 832]
        );
        Ok(())
    })());
    c.fact("constant conversions", (|| {
        const A: U128 = from_num!("18446744073709551616");
        const B: U128 = from_hex!("10000000000000000");
        same!("constants", (*A.as_limbs(), *B.as_limbs()), ([0, 1], [0, 1]));
        Ok(())
    })());
    // bit iterators of the primitive integers
    c.fact("bits of primitives", (|| {
        macro_rules! p {
            ($t:ty, $vals:expr) => {
                for x in $vals {
                    let x: $t = x;
                    let be: Vec<bool> = (0..<$t>::BITS).rev().map(|i| (x >> i) & 1 == 1).collect();
                    same!("bit_be_iter", x.bit_be_iter().collect::<Vec<_>>(), be);
                    let tr: Vec<bool> = be.into_iter().skip_while(|b| !b).collect();
                    same!("bit_be_trimmed_iter", x.bit_be_trimmed_iter().collect::<Vec<_>>(), tr);
                }
            };
        }
        p!(u8, 0..=255);
        p!(u16, 0..=65535);
        p!(u32, (0..32).flat_map(|i| (0..32).map(move |j| (1u32 << i) | (1 << j))).chain([0, u32::MAX]));
        p!(u64, (0..64).flat_map(|i| (0..64).map(move |j| (1u64 << i) | (1 << j))).chain([0, M]));
        p!(usize, (0..64).flat_map(|i| (0..64).map(move |j| (1usize << i) | (1 << j))).chain([0, usize::MAX]));
        p!(u128, (0..128).flat_map(|i| (0..128).map(move |j| (1u128 << i) | (1 << j))).chain([0, u128::MAX]));
        Ok(())
    })());
    c.fact("loop macros visit every index once, in order", (|| {
        for s in 0..20 {
            for e in 0..40 {
                let want: Vec<usize> = (s..e).collect();
                same!(format!("ct_for {s}..{e}"), visit!(ct_for, s, e), want);
                same!(format!("ct_for_unroll2 {s}..{e}"), visit!(ct_for_unroll2, s, e), want);
                same!(format!("ct_for_unroll4 {s}..{e}"), visit!(ct_for_unroll4, s, e), want);
                same!(format!("ct_for_unroll6 {s}..{e}"), visit!(ct_for_unroll6, s, e), want);
                same!(format!("ct_for_unroll8 {s}..{e}"), visit!(ct_for_unroll8, s, e), want);
            }
        }
        Ok(())
    })());
    c.assume("carries and borrows passed in are 0 or 1, as the callers do; strings have no superfluous leading zeros");
    wasm(&mut c, "uint");
    c.finish()
}
