//! Deterministic secp256k1 signing for the harness.
use crate::*;
use k256::ecdsa::SigningKey;
use std::cell::RefCell;
use std::collections::HashMap;

pub const N_ORDER: U256 = U256::from_limbs([0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF]);
pub const N_HALF: U256 = U256::from_limbs([0xDFE92F46681B20A0, 0x5D576E7357A4501D, 0xFFFFFFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF]);

pub fn key(i: u8) -> SigningKey {
    let h = keccak(&[b'k', b'e', b'y', i]);
    SigningKey::from_slice(h.as_slice()).unwrap()
}
pub fn key_addr(i: u8) -> Address {
    thread_local!(static C: RefCell<HashMap<u8, Address>> = Default::default());
    C.with(|c| {
        *c.borrow_mut().entry(i).or_insert_with(|| {
            let k = key(i);
            let p = k.verifying_key().to_encoded_point(false);
            Address::from_slice(&keccak(&p.as_bytes()[1..])[12..])
        })
    })
}
/// (v, r, s), low s
pub fn sign(i: u8, digest: B256) -> (u8, B256, B256) {
    thread_local!(static C: RefCell<HashMap<(u8, B256), (u8, B256, B256)>> = Default::default());
    if let Some(x) = C.with(|c| c.borrow().get(&(i, digest)).copied()) {
        return x;
    }
    let (sig, rid) = key(i).sign_prehash_recoverable(digest.as_slice()).unwrap();
    let b = sig.to_bytes();
    let mut r = B256::from_slice(&b[..32]);
    let mut s = U256::from_be_slice(&b[32..]);
    let mut v = 27 + rid.is_y_odd() as u8;
    if s > N_HALF {
        s = N_ORDER - s;
        v = 27 + 28 - v;
    }
    let _ = &mut r;
    let out = (v, r, B256::from(s));
    C.with(|c| c.borrow_mut().insert((i, digest), out));
    out
}
pub fn domain(name: &str, version: &str, chain: u64, me: Address) -> B256 {
    let mut p = vec![];
    p.extend(keccak(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)").0);
    p.extend(keccak(name.as_bytes()).0);
    p.extend(keccak(version.as_bytes()).0);
    p.extend(U256::from(chain).to_be_bytes::<32>());
    p.extend(me.into_word().0);
    keccak(&p)
}
pub fn typed(domain: B256, strukt: B256) -> B256 {
    let mut p = vec![0x19, 0x01];
    p.extend(domain.0);
    p.extend(strukt.0);
    keccak(&p)
}
/// own prediction of ecrecover: None if nothing is recoverable
pub fn recover(digest: B256, v: U256, r: B256, s: B256) -> Option<Address> {
    let mut d = digest.0.to_vec();
    d.extend(v.to_be_bytes::<32>());
    d.extend(r.0);
    d.extend(s.0);
    let o = crate::host::ecrecover(&d);
    if o.len() == 32 {
        Some(Address::from_slice(&o[12..]))
    } else {
        None
    }
}
