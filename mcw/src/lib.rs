//! The arithmetic of openzeppelin-crypto compiled for WebAssembly, the target
//! contracts run on; `run.mjs` enumerates operands and compares with BigInt.
use openzeppelin_crypto::arithmetic::limb;
use openzeppelin_crypto::arithmetic::uint::{Uint, WideUint};
use openzeppelin_crypto::arithmetic::BigInteger;
use openzeppelin_crypto::field::fp::{Fp, FpParams};
use openzeppelin_crypto::field::instance::*;
use openzeppelin_crypto::field::prime::PrimeField;
use openzeppelin_crypto::field::group::AdditiveGroup;
use openzeppelin_crypto::field::Field;
use openzeppelin_crypto::{fp_from_num, from_hex};

static mut IO: [u64; 64] = [0; 64];

#[no_mangle]
pub extern "C" fn io() -> *mut u64 {
    core::ptr::addr_of_mut!(IO) as *mut u64
}
fn b() -> &'static mut [u64; 64] {
    unsafe { &mut *(core::ptr::addr_of_mut!(IO)) }
}
#[no_mangle]
pub extern "C" fn prim(op: u32) {
    let o = b();
    let (x, y, z, w) = (o[0], o[1], o[2], o[3]);
    let r = match op {
        0 => {
            let p = limb::widening_mul(x, y);
            (p as u64, (p >> 64) as u64)
        }
        1 => limb::mac(x, y, z),
        2 => limb::carrying_mac(x, y, z, w),
        3 => limb::adc(x, y, z),
        _ => limb::sbb(x, y, z),
    };
    o[0] = r.0;
    o[1] = r.1;
}
fn take<const N: usize>(at: usize) -> [u64; N] {
    let mut a = [0; N];
    a.copy_from_slice(&b()[at..at + N]);
    a
}
fn put(at: usize, x: &[u64]) {
    b()[at..at + x.len()].copy_from_slice(x);
}
fn uint_<const N: usize>(op: u32) -> u32 {
    let (x, y) = (Uint::<N>::new(take(0)), Uint::<N>::new(take(N)));
    match op {
        0 => {
            let (lo, hi) = x.ct_widening_mul(&y);
            put(0, lo.as_limbs());
            put(N, hi.as_limbs());
            0
        }
        1 => {
            let (s, c) = x.ct_checked_add(&y);
            put(0, s.as_limbs());
            c as u32
        }
        2 => {
            let (s, c) = x.ct_checked_sub(&y);
            put(0, s.as_limbs());
            c as u32
        }
        3 => (x.ct_ge(&y) as u32) | (x.ct_gt(&y) as u32) << 1 | (x.ct_le(&y) as u32) << 2 | (x.ct_lt(&y) as u32) << 3 | (x.ct_eq(&y) as u32) << 4 | ((x < y) as u32) << 5,
        4 => {
            put(0, WideUint::new(x, y).ct_rem(&Uint::<N>::new(take(2 * N))).as_limbs());
            0
        }
        5 => {
            let mut t = x;
            let c = t.checked_mul2_assign();
            let mut h = x;
            h.div2_assign();
            put(0, t.as_limbs());
            put(N, h.as_limbs());
            c as u32
        }
        6 => x.num_bits() as u32,
        7 => {
            let k = b()[N] as usize;
            x.get_bit(k) as u32
        }
        _ => {
            let le = x.into_bytes_le();
            let back = Uint::<N>::from_bytes_le(&le);
            put(0, back.as_limbs());
            for (i, c) in le.iter().enumerate() {
                if (x.as_limbs()[i / 8] >> (8 * (i % 8))) as u8 != *c {
                    return 1;
                }
            }
            0
        }
    }
}
#[no_mangle]
pub extern "C" fn uint(n: u32, op: u32) -> u32 {
    match n {
        1 => uint_::<1>(op),
        2 => uint_::<2>(op),
        3 => uint_::<3>(op),
        4 => uint_::<4>(op),
        _ => uint_::<6>(op),
    }
}
struct Secp;
impl FpParams<4> for Secp {
    const MODULUS: Uint<4> = from_hex!("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F");
    const GENERATOR: Fp<Secp, 4> = fp_from_num!("3");
}
struct Bls381;
impl FpParams<6> for Bls381 {
    const MODULUS: Uint<6> = from_hex!("1A0111EA397FE69A4B1BA7B6434BACD764774B84F38512BF6730D2A0F6B0F6241EABFFFEB153FFFFB9FEFFFFFFFFAAAB");
    const GENERATOR: Fp<Bls381, 6> = fp_from_num!("2");
}
struct F64;
impl FpParams<1> for F64 {
    const MODULUS: Uint<1> = from_hex!("FFFFFFFFFFFFFFC5");
    const GENERATOR: Fp<F64, 1> = fp_from_num!("2");
}
fn field_<P: FpParams<N>, const N: usize>(op: u32) -> u32 {
    let (x, y) = (Fp::<P, N>::from_bigint(Uint::new(take(0))), Fp::<P, N>::from_bigint(Uint::new(take(N))));
    let r = match op {
        0 => x * y,
        1 => x + y,
        2 => x - y,
        3 => -x,
        4 => x.square(),
        5 => x.double(),
        6 => match x.inverse() {
            Some(i) => i,
            None => return 1,
        },
        7 => x.pow(&take::<1>(N)[..]),
        _ => x,
    };
    put(0, r.into_bigint().as_limbs());
    0
}
#[no_mangle]
pub extern "C" fn field(f: u32, op: u32) -> u32 {
    match f {
        0 => field_::<Secp, 4>(op),
        1 => field_::<Bls381, 6>(op),
        2 => field_::<F64, 1>(op),
        3 => field_::<GoldiLocksParam, 1>(op),
        4 => field_::<BabyBearParam, 1>(op),
        5 => field_::<BN256Param, 4>(op),
        6 => field_::<BLS12Param, 4>(op),
        7 => field_::<PallasParam, 4>(op),
        _ => field_::<VestaParam, 4>(op),
    }
}
